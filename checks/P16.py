"""P16: peak fitting."""
import contextlib
import io
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub

PROPERTY = 'P16'
RULE = ('spectra that are exactly a Lorentzian, an asymmetric Lorentzian or a damped oscillator (random grid, position, '
        'width, area and base line; peaks resolved by the grid), sets of modes with random degeneracies, quasi-harmonic '
        'shifts and modes that cannot be fitted; the expected values are those the curves were made of and, for areas, '
        'widths at half height and maxima, those measured on the curve on a fine grid; '
        'non-trivial unless base line, asymmetry and shift all vanish')


def peak_strategy():
    return st.fixed_dictionaries({'a': st.integers(12, 85), 'b': st.integers(0, 100), 'area': st.integers(-300, 0),
                                  's': st.integers(-30, 30), 'd': st.sampled_from([0, 0, 1, 4])})


def strategy():
    return st.fixed_dictionaries({'kind': st.sampled_from([0, 1, 2]), 'res': st.integers(-200, -95),
                                  'top': st.integers(80, 300), 'start': st.sampled_from([0, 0, 3]), 'peak': peak_strategy()})


def grid(case):
    res = 10 ** (case['res'] / 100.)
    top = case['top'] / 10.
    return np.arange(0, top, res) + (case['start'] * res if case['start'] else 0), res, top


def curve(kind, p, res, top):
    """(function, position, full width at half height, area parameter)"""
    a = p['a'] / 100. * top
    lo, hi = max(res * 2, 0.03), min(1.0, 0.2 * a)
    b = lo * (max(hi, lo * 1.01) / lo) ** (p['b'] / 100.)
    A = 10 ** (p['area'] / 100.)
    d = p['d'] * 0.02 * A / b / np.pi
    if kind == 0:
        return (lambda x: A / np.pi * b / (b * b + (x - a) ** 2) + d), a, 2 * b, A, d
    if kind == 1:
        s = p['s'] / 100.

        def f(x):
            g = 2 * b / (1 + np.exp(s * (x - a)))
            return A / (np.pi * g * (1 + ((x - a) / g) ** 2)) + d
        f.width = lambda x: 4 * b / (1 + np.exp(s * (x - a)))
        return f, None, None, None, d
    c = A * 4 * a * a * b / np.pi
    return (lambda x: c / ((a * a - x * x) ** 2 + (2 * b * x) ** 2) + d), a, 2 * b, None, d


def measured(f, x, d, a):
    """position of the maximum, maximum, area of the curve over the window from zero, on a fine grid"""
    g = np.linspace(0, x[-1], 200001)
    y = f(g)
    return g[np.argmax(y)], y.max(), np.trapezoid(y, g)


def half_width(f, d, pos, top):
    y0 = f(pos) - d
    w = []
    for sgn in (-1, 1):
        lo, hi = 0.0, 1e-3
        while f(pos + sgn * hi) - d > y0 / 2 and hi < 100:
            lo, hi = hi, hi * 1.5
        for _ in range(60):
            m = (lo + hi) / 2
            if f(pos + sgn * m) - d > y0 / 2:
                lo = m
            else:
                hi = m
        w.append(lo)
    return w[0] + w[1]


def run(case, ctx):
    from dynaphopy.analysis.fitting.fitting_functions import fitting_functions
    x, res, top = grid(case)
    kind, p = case['kind'], case['peak']
    f, a, width, area, d = curve(kind, p, res, top)
    y = f(x)
    ctx.event('curve %d' % kind)
    ctx.nontrivial(d > 0 or (kind == 1 and p['s'] != 0))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        F = fitting_functions[kind](x, y.copy(), guess_height=y.max(), guess_position=x[np.argmax(y)])
        got = F.get_fitting()
        ctx.check(got['all_good'], 'the fit failed')
        ctx.close(F.get_curve(x), y, 'fitted curve', rtol=1e-4, atol=1e-5 * y.max())
    pos, top_y, total = measured(f, x, d, a)
    ctx.close(got['peak_position'], pos if a is None else a, 'position', rtol=0,
              atol=1e-4 * (width or 1) + (2e-3 if a is None else 0))
    ctx.close(got['base_line'], d, 'base line', rtol=1e-3, atol=1e-4 * y.max())
    if kind == 0:
        ctx.close(got['width'], width, 'width', rtol=1e-4)
        ctx.close(got['area'], area, 'area', rtol=1e-4)
        ctx.close(got['maximum'], top_y - d, 'maximum', rtol=1e-3)
        ctx.close(half_width(f, d, a, top), got['width'], 'width at half height', rtol=1e-3)
    else:
        if kind == 2:
            ctx.close(got['width'], width, 'width', rtol=1e-3)
        else:
            # twice the frequency dependent half width, where the maximum is
            ctx.close(got['width'], f.width(pos), 'width', rtol=5e-3)
            if p['s'] == 0:
                ctx.close(got['width'], half_width(f, d, pos, top), 'width at half height', rtol=1e-2)
            ctx.close(got['asymmetry'], p['s'] / 100., 'asymmetry', rtol=1e-2, atol=1e-3)
        ctx.close(got['maximum'], top_y if kind == 1 else f(a), 'maximum', rtol=1e-3)
        ctx.close(got['area'], total, 'area', rtol=2e-3)


def analysis_strategy():
    return st.fixed_dictionaries({
        'kind': st.sampled_from([0, 1, 2]), 'res': st.integers(-170, -95), 'top': st.integers(80, 200),
        'start': st.just(0), 'peaks': st.lists(peak_strategy(), min_size=2, max_size=6), 'group': st.lists(st.integers(0, 3), min_size=6, max_size=6),
        'degenerate': st.booleans(), 'shift': st.booleans(), 'broken': st.sampled_from([-1, -1, 0, 2]), 'seed': gen.seeds(),
        'occupancy': st.booleans()})


def call(ctx, *a, **k):
    from dynaphopy.analysis import fitting
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter('ignore')
        r = fitting.phonon_fitting_analysis(*a, show_plots=False, **k)
    return r, out.getvalue()


def run_analysis(case, ctx):
    x, res, top = grid(case)
    kind = case['kind']
    n = len(case['peaks'])
    freqs = np.array([0.5 + 3 * g for g in case['group'][:n]])
    r = gen.rng(case['seed'])
    freqs = freqs + r.uniform(-2e-5, 2e-5, size=n)
    # modes of one degenerate set share the position, not the height
    ys = []
    for i in range(n):
        p = dict(case['peaks'][i])
        lead = min(j for j in range(n) if case['group'][j] == case['group'][i])
        for k in ('a', 'b', 's'):
            p[k] = case['peaks'][lead][k]
        ys.append(curve(kind, p, res, top)[0](x))
    ys = np.array(ys).T
    if case['broken'] >= 0 and case['broken'] < n:
        bad = [j for j in range(n) if case['group'][j] == case['group'][case['broken']]] if case['degenerate'] else [
            case['broken']]
        ys[:, bad] = -ys[:, bad]
    else:
        bad = []
    shift = r.uniform(-0.5, 0.5, size=n) if case['shift'] else None
    keep = ys.copy()
    k = dict(harmonic_frequencies=freqs, thermal_expansion_shift=shift, fitting_function_type=kind,
             use_degeneracy=case['degenerate'], show_occupancy=case['occupancy'])
    got, text = call(ctx, ys, x, **k)
    ctx.check(np.array_equal(keep, ys), 'the spectra were modified')
    sets = {}
    for i in range(n):
        sets.setdefault(case['group'][i], []).append(i)
    ctx.nontrivial((case['degenerate'] and max(len(s) for s in sets.values()) > 1) or case['shift'])
    from dynaphopy.analysis.fitting.fitting_functions import fitting_functions
    printed = re.split(r'Peak # (\d+)', text)
    blocks = {int(printed[j]) - 1: printed[j + 1] for j in range(1, len(printed) - 1, 2)}
    for name in ('positions', 'widths', 'error', 'dt_Q2'):
        ctx.check(len(got[name]) == n, lambda: '%s: %d values' % (name, len(got[name])))
    for i in range(n):
        members = sets[case['group'][i]] if case['degenerate'] else [i]
        y = np.average([keep[:, j] for j in members], axis=0)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            want = fitting_functions[kind](x, y, guess_height=y.max(), guess_position=x[np.argmax(y)]).get_fitting()
        if not want['all_good']:
            ctx.event('fit that fails')
            ctx.check(got['positions'][i] == 0 and got['widths'][i] == 0 and got['dt_Q2'][i] == 0,
                      lambda: 'mode %d cannot be fitted but has %s %s' % (i, got['positions'][i], got['widths'][i]))
            ctx.check('not successful in peak #%d' % (i + 1) in text, 'failed fit of mode %d not announced' % i)
            continue
        if i in bad:
            continue
        s = shift[i] if shift is not None else 0
        ctx.close(got['positions'][i], want['peak_position'] + s, 'position of mode %d' % i, rtol=1e-4, atol=1e-4)
        ctx.close(got['widths'][i], want['width'], 'width of mode %d' % i, rtol=1e-3)
        ctx.close(got['dt_Q2'][i], 2 * want['area'], '<|dQ/dt|^2> of mode %d' % i, rtol=1e-3)

        def value(label):
            m = re.search(re.escape(label) + r'.*?(-?[0-9.]+|nan)( \S+)*\s*$', blocks[i], re.M)
            ctx.check(m is not None, lambda: 'mode %d: no line %s in %s' % (i, label, blocks[i]))
            m = re.search(re.escape(label) + r'\s+(-?[0-9.]+|nan)', blocks[i])
            return float(m.group(1))
        from scipy.integrate import simpson
        ctx.close(value('Position'), want['peak_position'], 'printed position', rtol=1e-4, atol=1e-4)
        ctx.close(value('Width'), want['width'], 'printed width', rtol=1e-3, atol=2e-6)
        ctx.close(value('Area (<K>)    (Total)'), simpson(y, x=x), 'printed total area', rtol=1e-5, atol=2e-6)
        ctx.close(value('<|dQ/dt|^2>'), 2 * want['area'], 'printed <|dQ/dt|^2>', rtol=1e-3, atol=2e-6)
        ctx.close(value('Base line'), want['base_line'], 'printed base line', rtol=1e-3, atol=1e-5)
        ctx.close(value('Maximum height'), want['maximum'], 'printed maximum', rtol=1e-3, atol=1e-5)
        ctx.close(value('Frequency shift'), want['peak_position'] - freqs[i], 'printed frequency shift', rtol=1e-4, atol=1e-4)
        ctx.check(('Occupation number' in blocks[i]) == case['occupancy'], 'occupation number')
        if shift is not None:
            ctx.close(value('Frequency shift (+T. exp.)'), want['peak_position'] - freqs[i] + s,
                      'printed frequency shift with thermal expansion', rtol=1e-4, atol=1e-4)


def individual_strategy():
    from checks import P19
    return st.fixed_dictionaries({
        'crystal': P19.symmetric_crystals(), 'dim': st.sampled_from(P19.DIMS), 'seed': gen.seeds(), 'q': st.integers(0, 30),
        'kind': st.sampled_from([0, 0, 1, 2]), 'qha': st.sampled_from([0, 0, 10, -8]), 'alg': st.sampled_from([0, 1, 2]),
        'atom': st.sampled_from([-1, -1, 0]), 'order': st.lists(st.booleans(), min_size=1, max_size=3)})


def run_individual(case, ctx):
    """The analysis of the modes of a calculation"""
    from phonopy.file_IO import write_FORCE_CONSTANTS
    from scipy.integrate import simpson
    c = gen.build_crystal(case['crystal'])
    dim = case['dim']
    qs = calc.commensurate_reference(c, dim)
    q = np.array(qs[case['q'] % len(qs)])
    par = {'project_on_atom': case['atom']} if case['atom'] >= 0 else {}
    qp, u, v = calc.quasiparticle(c, dim, nstep=40, seed=case['seed'], power_spectra_algorithm=case['alg'], silent=True,
                                  fitting_function=case['kind'], frequency_range=np.linspace(0.2, 20, 67),
                                  reduced_q_vector=q, number_of_coefficients_mem=8, **par)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        fr = np.array(qp.get_frequencies())
        if case['qha']:
            factor = (1 + case['qha'] / 100.) ** 2
            path = ctx.tempdir() + '/fcq'
            write_FORCE_CONSTANTS(gen.spring_force_constants(c, dim, case['seed'] % 97) * factor, filename=path)
            qp.set_qha_force_constants(path)
        spectrum = np.array(qp.get_power_spectrum_phonon())
        x = np.array(qp.get_frequency_range())
    sets = []
    for i in range(len(fr)):
        for s in sets:
            if np.abs(fr[s] - fr[i]).min() < 1e-4:
                s.append(i)
                break
        else:
            sets.append([i])
    edge = np.abs(fr[:, None] - fr[None, :])
    if ((edge > 1e-5) & (edge < 1e-3)).any():
        ctx.event('almost degenerate')
        return
    several = [s for s in sets if len(s) > 1]
    ctx.nontrivial(bool(several))
    for symmetry in case['order']:
        qp.parameters.use_symmetry = symmetry
        out = io.StringIO()
        with warnings.catch_warnings(), contextlib.redirect_stdout(out):
            warnings.simplefilter('ignore')
            qp.phonon_individual_analysis()
        printed = re.split(r'Peak # (\d+)', out.getvalue())
        blocks = {int(printed[j]) - 1: printed[j + 1] for j in range(1, len(printed) - 1, 2)}
        failed = [int(m) - 1 for m in re.findall(r'not successful in peak #(\d+)', out.getvalue())]
        ctx.check(sorted(list(blocks) + failed) == list(range(len(fr))), lambda: 'modes %s, failed %s' % (sorted(blocks), failed))

        for i, text in blocks.items():
            def value(label):
                m = re.search(re.escape(label) + r'\s+(-?[0-9.]+|nan)', text)
                ctx.check(m is not None, lambda: 'mode %d: no line %s in %s' % (i, label, text))
                return float(m.group(1))
            members = [s for s in sets if i in s][0] if symmetry else [i]
            total = simpson(spectrum[:, members].mean(axis=1), x=x)
            ctx.close(value('Area (<K>)    (Total)'), total, 'area of mode %d (degenerate with %s, symmetry %s)' % (
                i, members, symmetry), rtol=1e-4, atol=2e-6)
            if len(members) > 1:
                ctx.event('degenerate mode')
            ctx.close(value('Position') - value('Frequency shift'), fr[i], 'harmonic frequency in the shift', atol=1e-4)
            if case['qha']:
                ctx.close(value('Frequency shift (+T. exp.)') - value('Frequency shift'), (np.sqrt(factor) - 1) * fr[i],
                          'quasi-harmonic shift', rtol=1e-4, atol=2e-4 + 1e-3 * (abs(fr[i]) < 1e-2))
            else:
                ctx.check('T. exp.' not in text, 'shift of thermal expansion without quasi-harmonic force constants')
            ctx.check(('Occupation number' in text) == (case['atom'] < 0), 'occupation number')
            ctx.check(('asymmetry' in text) == (case['kind'] == 1), 'kind of curve')


SUBS = [Sub('curves', strategy, run, quick=600, thorough=8000, shards=4, tshards=5),
        Sub('modes', analysis_strategy, run_analysis, quick=500, thorough=5000, shards=4, tshards=5),
        Sub('individual', individual_strategy, run_individual, quick=160, thorough=2000, shards=3, tshards=5)]
