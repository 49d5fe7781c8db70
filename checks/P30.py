"""P30: what the plots draw."""
import re

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub, quiet
from checks import P21, P29

PROPERTY = 'P30'
RULE = ('random crystals and runs; the figures are drawn off screen and every curve, bar, band, label and arrow in them is compared '
        'with the value of the library (or phonopy, or numpy) it stands for, at its own time, frequency or distance; non-trivial '
        'when several curves are drawn in one figure')
ASSUMPTIONS = ['matplotlib with its off-screen back end draws what is in its axes', 'phonopy itself, called directly, gives '
               'the frequencies at a wave vector for given force constants']


def curves(ax, n=None):
    """(x, y) of the lines of one axes, without horizontal guide lines."""
    out = []
    for l in ax.get_lines():
        x, y = np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)
        if len(x) == 2 and tuple(x) == (0, 1) and y[0] == y[1] == 0:
            continue
        out.append((x, y))
    return out


def same_curves(ctx, ax, want, msg, rtol=1e-7, atol=1e-9, sets=False):
    """The lines drawn are the lines wanted, in any order."""
    got = curves(ax)
    ctx.check(len(got) == len(want), lambda: '%s: %d curves drawn, expected %d' % (msg, len(got), len(want)))

    def key(c):
        return tuple(np.round(np.concatenate([[len(c[0])], c[0][:1], c[0][-1:], c[1]]), 4))
    rest = list(got)
    for k, (x, y) in enumerate(want):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        best = min(range(len(rest)), key=lambda i: _distance(rest[i], x, y))
        g = rest.pop(best)
        ctx.check(len(g[0]) == len(x), lambda: '%s: curve of %d points, expected %d' % (msg, len(g[0]), len(x)))
        ctx.close(g[0], x, '%s: abscissas of curve %d' % (msg, k), rtol=rtol, atol=atol)
        ctx.close(g[1], y, '%s: curve %d' % (msg, k), rtol=rtol, atol=atol)


def _distance(g, x, y):
    if len(g[0]) != len(x):
        return 1e300
    d = np.abs(g[0] - x).sum() + np.abs(g[1] - y).sum()
    return d if np.isfinite(d) else 1e200


def figures():
    import matplotlib.pyplot as plt
    return [plt.figure(k) for k in plt.get_fignums()]


def close():
    import matplotlib.pyplot as plt
    plt.close('all')


def draw(ctx, call, what, number=1, render=False):
    """Runs a plot method and draws its figures for real."""
    close()
    with quiet() as out:
        call()
    fs = figures()
    ctx.check(len(fs) == number, lambda: '%s: %d figures, expected %d' % (what, len(fs), number))
    for f in fs if render else fs[:1]:
        f.canvas.draw()
    return fs, out.getvalue()


# ------------------------------------------------------------------ runs and spectra
def curves_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I'), lo=350, hi=600), 'dim': gen.dims(1, 3, 4),
        'n': st.integers(20, 60), 'dt': st.sampled_from([0.002, 0.01, 0.05]), 'seed': gen.seeds(), 'q': st.integers(0, 20),
        'atoms': st.lists(st.integers(0, 40), min_size=1, max_size=3), 'coords': st.permutations([0, 1, 2]), 'ncoord': st.integers(1, 3),
        'default': st.booleans(), 'alg': st.sampled_from([0, 1, 2, 3]), 'fc': st.booleans(),
        'order': st.permutations(['trajectory', 'velocity', 'vc', 'vq', 'energy', 'full', 'wave', 'phonon'])})


def run_curves(case, ctx):
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    from scipy.integrate import simpson
    c = gen.build_crystal(case['crystal'])
    dt, n = case['dt'], case['n']
    qp, u, v = calc.quasiparticle(c, case['dim'], nstep=n, dt=dt, seed=case['seed'], fc=True, silent=True,
                                  power_spectra_algorithm=case['alg'], mesh_phonopy=(5, 5, 5), noise=0.3,
                                  number_of_coefficients_mem=8)
    energy = gen.rng(case['seed'] + 3).normal(size=n)
    d = qp.dynamic
    qp = dynaphopy.Quasiparticle(Dynamics(structure=d.structure, trajectory=d.trajectory, velocity=d.velocity, time=np.arange(n) * dt,
                                          energy=energy, supercell=d.get_supercell()))
    p = qp.parameters
    p.silent, p.mesh_phonopy, p.number_of_coefficients_mem = True, (5, 5, 5), 8
    qp.select_power_spectra_algorithm(case['alg'])
    qs = calc.commensurate_reference(c, case['dim'])
    qp.set_reduced_q_vector(qs[case['q'] % len(qs)])
    qp.set_frequency_limits([0, 0.3 / dt])
    qp.set_spectra_resolution(0.3 / dt / 60)
    d = qp.dynamic
    fmax = np.max(P29.phonopy_frequencies(c, case['dim'], d.structure.get_force_constants().get_array(), qs))
    time = np.arange(n) * dt
    nat, nprim = len(gen.supercell_positions(c, case['dim'])[0]), c.nprim
    coords = list(case['coords'][:case['ncoord']])
    x = np.array(d.trajectory).real.copy()
    vel = np.array(d.velocity).real.copy()
    freqs = np.array(p.frequency_range)
    ctx.nontrivial(len(coords) * len(case['atoms']) > 1)
    ctx.event('algorithm %d' % case['alg'])
    tol = dict(rtol=1e-6, atol=1e-6 * dt)
    for what in case['order']:
        if what in ('trajectory', 'velocity', 'vc'):
            natom = nprim if what == 'vc' else nat
            atoms = [0] if case['default'] else sorted(set(a % natom for a in case['atoms']))
            cc = [0] if case['default'] else coords
            data = {'trajectory': x, 'velocity': vel}.get(what)
            if data is None:
                data = np.array(qp.get_vc()).real
            method = {'trajectory': qp.plot_trajectory, 'velocity': qp.plot_velocity, 'vc': qp.plot_vc}[what]
            (f,), _ = draw(ctx, (lambda: method()) if case['default'] else
                           (lambda: method(atoms=list(atoms), coordinates=list(cc))), what)
            same_curves(ctx, f.axes[0], [(time, data[:, a, k]) for a in atoms for k in cc], 'plot of ' + what, **tol)
        elif what == 'vq':
            modes = [0] if case['default'] else sorted(set(a % (3 * nprim) for a in case['atoms']))
            (f,), _ = draw(ctx, (lambda: qp.plot_vq()) if case['default'] else (lambda: qp.plot_vq(modes=list(modes))), what)
            vq = np.array(qp.get_vq()).real
            same_curves(ctx, f.axes[0], [(time, vq[:, k]) for k in modes], 'plot of vq', **tol)
        elif what == 'energy':
            (f,), _ = draw(ctx, qp.plot_energy, what)
            same_curves(ctx, f.axes[0], [(time, energy)], 'plot of the energy', **tol)
        elif what in ('full', 'wave'):
            if what == 'full' and fmax < 1:
                ctx.event('no restoring forces')
                continue
            method, get = {'full': (qp.plot_power_spectrum_full, qp.get_power_spectrum_full),
                           'wave': (qp.plot_power_spectrum_wave_vector, qp.get_power_spectrum_wave_vector)}[what]
            (f,), text = draw(ctx, method, what)
            y = np.array(get())
            drawn = [z for ax in f.axes for z in curves(ax)]
            near = min(drawn, key=lambda z: _distance(z, freqs, y))
            ctx.check(len(near[0]) == len(freqs), 'plot of the %s spectrum: it is not drawn' % what)
            ctx.close(near[0], freqs, 'frequencies of the plot of the %s spectrum' % what, rtol=1e-9, atol=1e-9)
            ctx.close(near[1], y, 'plot of the %s spectrum' % what, rtol=1e-7, atol=1e-12 * np.abs(y).max())
            m = re.search(r'Total Area.*?: *([-+0-9.eE]+)', text)
            ctx.check(m is not None, 'area of the %s spectrum not printed' % what)
            ctx.close(float(m.group(1)), simpson(y, x=freqs), 'printed area of the %s spectrum' % what, rtol=1e-6)
            if what == 'full':
                dens = [z for z in drawn if z is not near]
                ctx.check(len(dens) == 1, '%d densities of states in the plot of the spectrum' % len(dens))
                same_density(ctx, dens[0], density(d.structure, (5, 5, 5), freq_min=freqs[0], freq_max=freqs[-1],
                                                   freq_pitch=p.spectrum_resolution), 'density of states in the plot of the spectrum')
        else:
            fs, _ = draw(ctx, qp.plot_power_spectrum_phonon, what, 3 * nprim)
            y = np.array(qp.get_power_spectrum_phonon())
            for k, f in enumerate(fs):
                same_curves(ctx, f.axes[0], [(freqs, y[:, k])], 'plot of the spectrum of phonon %d' % (k + 1))


def density(structure, mesh, fc=None, **kw):
    """The density of states that the library reports."""
    from dynaphopy.interface import phonopy_link
    with quiet():
        x, y = phonopy_link.obtain_phonopy_dos(structure, mesh=mesh, force_constants=fc, **kw)
    return np.array(x), np.array(y)


def same_density(ctx, curve, want, msg):
    ctx.check(len(curve[0]) == len(want[0]), '%s: %d points, expected %d' % (msg, len(curve[0]), len(want[0])))
    ctx.close(curve[0], want[0], msg + ': frequencies', rtol=1e-7, atol=1e-9)
    ctx.close(curve[1], want[1], msg, rtol=1e-6, atol=1e-9 * (1 + np.abs(want[1]).max()))


# ------------------------------------------------------------------ displacement distributions
def dist_strategy():
    return st.fixed_dictionaries(dict(P21.base(), bins=st.integers(2, 40), n=st.integers(10, 25),
                                      direction=st.lists(st.integers(-2, 2), min_size=3, max_size=3)))


def distribution(case, ctx):
    import dynaphopy
    c, d, u, S, idx, ptype, small = P21.build(case)
    direction = np.array(case['direction'], dtype=float)
    if not small or not direction.any():
        return
    qp = dynaphopy.Quasiparticle(d)
    qp.parameters.number_of_bins_histogram = case['bins']
    types = ptype[idx]
    nt = ptype.max() + 1
    elements = [c.elements[list(ptype).index(t)] for t in range(nt)]
    fs, text = draw(ctx, lambda: qp.plot_trajectory_distribution(direction), 'displacements', nt)
    ctx.nontrivial(nt > 1)
    # the direction is given in reduced coordinates of the unit cell or Cartesian: P21 decides; the heights come from the library
    heights, _ = qp.get_atomic_displacements(direction)
    ctx.check(len(heights) == nt, '%d distributions for %d atoms' % (len(heights), nt))
    found = re.findall(r'Atom (\d+), Element ([A-Z][a-z]?)', text)
    ctx.check([(int(a), e) for a, e in found] == list(enumerate(elements)), lambda: 'atoms printed: %s, expected %s' % (found, elements))
    for t, f in enumerate(fs):
        ax = f.axes[0]
        bars = sorted((b.get_x(), b.get_width(), b.get_height()) for b in ax.patches)
        ctx.check(len(bars) == case['bins'], '%d bars for %d bins' % (len(bars), case['bins']))
        bars = np.array(bars)
        ctx.close(bars[:, 2], heights[t], 'heights of the bars of atom %d' % t, rtol=1e-7, atol=1e-9)
        area = (bars[:, 1] * bars[:, 2]).sum()
        ctx.close(area, 1.0, 'area of the bars of atom %d' % t, rtol=1e-6)
        ctx.close(bars[1:, 0], (bars[:, 0] + bars[:, 1])[:-1], 'bars touch', rtol=0, atol=1e-6)
        # where the bars are: mean and width of the displacements along the direction
        e = direction / np.linalg.norm(direction)
        z = u[:, types == t].dot(e).ravel()
        if t == 0:
            low, high = [g(u.dot(e)) for g in (np.min, np.max)]
            if abs(bars[0, 0] - low) > 1e-6 or abs(bars[-1, 0] + bars[-1, 1] - high) > 1e-6:
                ctx.fail('the bars go from %.6f to %.6f, the displacements from %.6f to %.6f' % (
                    bars[0, 0], bars[-1, 0] + bars[-1, 1], low, high))
        mid = bars[:, 0] + bars[:, 1] / 2
        w = bars[0, 1]
        ctx.check(abs((mid * bars[:, 2] * bars[:, 1]).sum() - z.mean()) <= w / 2 + 1e-6,
                  'mean of the bars of atom %d: %g, of its displacements %g' % (t, (mid * bars[:, 2] * bars[:, 1]).sum(), z.mean()))
        ctx.check(elements[t] in (f.get_suptitle() + ax.get_title()), 'element missing in the title of atom %d' % t)


def gauss_strategy():
    return st.fixed_dictionaries(dict(P21.base(), bins=st.integers(12, 40), n=st.integers(300, 700), offset=st.just(0.),
                                      normal=st.sampled_from([0.03, 0.06, 0.12]), elsewhere=st.floats(-0.2, 0.2),
                                      direction=st.lists(st.integers(-2, 2), min_size=3, max_size=3)))


def gauss(case, ctx):
    """the printed mean and deviation are those of the Gaussian that fits the bars best, and the line drawn is that"""
    import dynaphopy
    from scipy.optimize import curve_fit
    c, d, u, S, idx, ptype, small = P21.build(case)
    direction = np.array(case['direction'], dtype=float)
    if not small or not direction.any():
        return
    qp = dynaphopy.Quasiparticle(d)
    qp.parameters.number_of_bins_histogram = case['bins']
    nt = ptype.max() + 1
    fs, text = draw(ctx, lambda: qp.plot_trajectory_distribution(direction), 'displacements', nt)
    blocks = re.split(r'Atom \d+, Element', text)[1:]
    ctx.check(len(blocks) == nt, '%d atoms printed, %d expected' % (len(blocks), nt))

    def g(x, a, b, h, base):
        return h * np.exp(-(x - a)**2 / (2 * b**2)) + base
    for t, f in enumerate(fs):
        bars = np.array(sorted((b.get_x() + b.get_width() / 2, b.get_height()) for b in f.axes[0].patches))
        z = u[:, ptype[idx] == t].dot(direction / np.linalg.norm(direction)).ravel()
        try:
            p, cov = curve_fit(g, bars[:, 0], bars[:, 1], p0=[z.mean(), z.std(), bars[:, 1].max(), 0.])
        except RuntimeError:
            continue
        r = bars[:, 1] - g(bars[:, 0], *p)
        if (r**2).sum() > 0.02 * (bars[:, 1]**2).sum() or abs(abs(p[1]) / z.std() - 1) > 0.2 or len(z) < 300:
            ctx.event('bars too rough')
            continue
        if 'failed' in blocks[t]:
            ctx.event('fit failed')
            continue
        mean, std = [float(re.search(k + r'\s+(\S+) Angstrom', blocks[t]).group(1)) for k in ('Mean', 'Standard deviation')]
        lines = [l for l in f.axes[0].get_lines() if len(l.get_xdata()) > 2]
        ctx.check(len(lines) == 1, '%d curves drawn over the bars' % len(lines))
        x, y = [np.array(k, dtype=float) for k in lines[0].get_data()]
        lib = ((y - g(x, *p))**2).sum() / (y**2).sum()
        if abs(mean - z.mean()) > 5 * z.std() or std > 5 * z.std() or std < 0.2 * z.std():
            ctx.event('another minimum')          # the search starts from a fixed guess
            sub = g(bars[:, 0], mean, std, 1., 0.)
            ctx.check(np.corrcoef(sub, bars[:, 1])[0, 1] < 0.999, 'values printed neither of the data nor of another minimum')
            continue
        ctx.nontrivial()
        ctx.close([mean, std], [p[0], abs(p[1])], 'mean and deviation printed of atom %d and those of its bars' % t, rtol=1e-3,
                  atol=1e-4)
        ctx.check(lib < 1e-4, lambda: 'curve drawn over the bars of atom %d differs from the best Gaussian by %g' % (t, lib))


# ------------------------------------------------------------------ phonon modes
def modes_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=3, lo=350, hi=600), 'dim': gen.dims(1, 2, 2), 'seed': gen.seeds(),
        'q': st.integers(0, 20), 'scale': st.integers(1, 20)})


def modes(case, ctx):
    from matplotlib.patches import FancyArrowPatch
    from mpl_toolkits.mplot3d import proj3d
    import matplotlib.colors as mcolors
    c = gen.build_crystal(case['crystal'])
    qp, _, _ = calc.quasiparticle(c, case['dim'], nstep=4, seed=case['seed'])
    qs = calc.commensurate_reference(c, case['dim'])
    q = qs[case['q'] % len(qs)]
    qp.set_reduced_q_vector(q)
    qp.parameters.modes_vectors_scale = case['scale']
    e = np.array(qp.get_eigenvectors())
    n3 = 3 * c.nprim
    fs, _ = draw(ctx, qp.plot_eigenvectors, 'phonon modes', n3, render=True)
    ctx.nontrivial(len(c.elements) > c.nprim)
    k = 2 * np.pi * np.linalg.inv(c.prim).dot(q)
    m = np.array([gen.MASSES[x] for x in c.elements])
    for i, f in enumerate(fs):
        ax = f.axes[0]
        dots = [l for l in ax.get_lines() if l.get_marker() == 'o' and len(l.get_data_3d()[0]) == 1]
        ctx.check(len(dots) == len(m), '%d atoms drawn, %d in the cell' % (len(dots), len(m)))
        at = np.array([np.array(l.get_data_3d(), dtype=float).ravel() for l in dots])
        names = [t.get_text() for t in ax.get_legend().get_texts()]
        ctx.check(sorted(names) == sorted(set(c.elements)), 'elements of the legend: %s' % names)
        colour = dict(zip(names, [mcolors.to_hex(h.get_color()) for h in ax.get_legend().legend_handles]))
        for j in range(len(m)):
            near = int(np.argmin(np.abs(at - c.positions[j]).sum(1)))
            ctx.close(at[near], c.positions[j], 'position of atom %d' % j, rtol=0, atol=1e-8)
            ctx.check(mcolors.to_hex(dots[near].get_color()) == colour[c.elements[j]],
                      'atom %d (%s) has the colour of another element' % (j, c.elements[j]))
        arrows = [a for a in ax.get_children() if isinstance(a, FancyArrowPatch)]
        ctx.check(len(arrows) == len(m), '%d arrows for %d atoms' % (len(arrows), len(m)))
        vec = (e[i, c.ptype] / np.sqrt(m)[:, None] * np.exp(1j * c.positions.dot(k))[:, None] * case['scale']).real
        got = np.array([np.ravel(a._posA_posB) for a in arrows])
        want = []
        for j in range(len(m)):
            a = proj3d.proj_transform(*c.positions[j], ax.M)[:2]
            b = proj3d.proj_transform(*(c.positions[j] + vec[j]), ax.M)[:2]
            want.append(np.concatenate([a, b]))
        got = got[[int(np.argmin(np.abs(got[:, :2] - w[:2]).sum(1))) for w in want]]
        ctx.close(got, np.array(want), 'arrows of mode %d' % (i + 1), rtol=1e-5, atol=1e-7)


# ------------------------------------------------------------------ bands
def bands_strategy():
    return st.fixed_dictionaries(dict(P29.base(), nseg=st.sampled_from([1, 2, 2, 3]), labels=st.sampled_from([True, True, True, False]), res=st.integers(2, 6),
                                      commensurate=st.booleans(), chain=st.booleans(), harmonic=st.booleans(),
                                      which=st.lists(st.sampled_from(['harmonic', 'renormalized', 'fat', 'shifts', 'mesh', 'dos', 'rdos', 'spectrum', 'thermal']),
                                                     min_size=1, max_size=2, unique=True)))


def tick_labels(ax):
    return [(round(float(x), 8), t.get_text().replace(u'$\\Gamma$', 'GAMMA')) for x, t in zip(ax.get_xticks(), ax.get_xticklabels())]


def bands(case, ctx):
    got = P29.build(case, band_resolution=case['res'])
    if got is None:
        ctx.event('frequencies do not suit')
        return
    c, dim, qp = got
    qp.parameters.mesh_phonopy = (3, 3, 3)
    ranges = P29.path(case, c, dim)
    names = ['GAMMA', 'X', 'L', 'M']
    labels = [(names[i % 4], names[(i + (1 if case['chain'] else 2)) % 4]) for i in range(len(ranges))]
    qp.set_band_ranges({'ranges': ranges, 'labels': labels} if case['labels'] else ranges)
    inv = np.linalg.inv(c.prim)
    length = [np.linalg.norm(inv.dot(np.array(b) - np.array(a))) for a, b in ranges]
    start = np.concatenate([[0], np.cumsum(length)])
    ticks = [(0., labels[0][0])]
    for i in range(1, len(ranges)):
        ticks.append((start[i], labels[i][0] if labels[i][0] == labels[i - 1][1] else labels[i - 1][1] + '/' + labels[i][0]))
    ticks.append((start[-1], labels[-1][1]))
    n3 = 3 * c.nprim
    ctx.nontrivial()

    def check_ticks(ax, what):
        ctx.close(np.array(ax.get_xlim()), [0, start[-1]], what + ': range of the abscissas', rtol=1e-6)
        if case['labels']:
            t = tick_labels(ax)
            ctx.check([x[1] for x in t] == [x[1] for x in ticks], lambda: '%s: labels %s, expected %s' % (what, t, ticks))
            ctx.close([x[0] for x in t], [x[0] for x in ticks], what + ': place of the labels', rtol=1e-6, atol=1e-7)

    def dist(i, res):
        return start[i] + length[i] * np.arange(res + 1) / res

    for which in case['which']:
        ctx.event(which)
        if which == 'harmonic':
            (f,), _ = draw(ctx, qp.plot_phonon_dispersion_bands, 'bands')
            ax = f.axes[0]
            lines = curves(ax)
            ctx.check(len(lines) == len(ranges) * n3, '%d harmonic branches drawn' % len(lines))
            res = len(lines[0][0]) - 1
            for i, (a, b) in enumerate(ranges):
                seg = [l for l in lines if abs(l[0][0] - start[i]) < 1e-6 and abs(l[0][-1] - start[i + 1]) < 1e-6]
                ctx.check(len(seg) == n3, 'harmonic bands: %d branches in segment %d' % (len(seg), i))
                qs = [np.array(a) + (np.array(b) - np.array(a)) * k / float(res) for k in range(res + 1)]
                ref = P29.phonopy_frequencies(c, dim, qp.harmonic, qs)
                ctx.close(seg[0][0], dist(i, res), 'harmonic bands: distances', rtol=1e-7, atol=1e-8)
                ctx.close(np.sort(np.array([l[1] for l in seg]).T, axis=1), ref, 'harmonic bands: segment %d' % i, rtol=1e-5, atol=2e-4)
            check_ticks(ax, 'harmonic bands')
        elif which in ('renormalized', 'fat'):
            fat = which == 'fat'
            harmonic = case['harmonic']
            (f,), _ = draw(ctx, lambda: qp.plot_renormalized_phonon_dispersion_bands(plot_linewidths=fat, plot_harmonic=harmonic), 'bands')
            data = qp.get_renormalized_phonon_dispersion_bands(with_linewidths=fat)
            ax = f.axes[0]
            want = []
            for s in data:
                for name in ['renormalized_frequencies'] + (['harmonic_frequencies'] if harmonic else []):
                    want += [(s['q_path_distances'], s[name]['branch_%d' % j]) for j in range(n3)]
            same_curves(ctx, ax, want, 'renormalized bands')
            check_ticks(ax, 'renormalized bands')
            # colours: one for harmonic, another for renormalized, as in the legend
            if harmonic:
                handles = ax.get_legend().legend_handles
                col = dict(zip([t.get_text() for t in ax.get_legend().get_texts()], [h.get_color() for h in handles]))
                for name in ('Harmonic', 'Renormalized'):
                    mine = [l for l in ax.get_lines() if l.get_color() == col[name] and len(l.get_xdata()) == case['res'] + 1]
                    ref = [(np.array(s['q_path_distances']), np.array(s[name.lower() + '_frequencies']['branch_%d' % j]))
                           for s in data for j in range(n3)]
                    ctx.check(len(mine) == len(ref), 'legend: %d lines are %s, %d expected' % (len(mine), name, len(ref)))
                    for x, y in ref:
                        ctx.check(min(_distance((l.get_xdata(), l.get_ydata()), x, y) for l in mine) < 1e-6 * (1 + np.abs(y).sum()),
                                  'legend: a %s branch does not have its colour' % name)
            polys = list(ax.collections)
            ctx.check(len(polys) == (n3 * len(ranges) if fat else 0), '%d linewidth bands drawn' % len(polys))
            if fat:
                boxes = [np.vstack([q.vertices for q in z.get_paths()]) for z in polys]
                for s in data:
                    x = np.array(s['q_path_distances'])
                    for j in range(n3):
                        y, w = [np.array(s[name]['branch_%d' % j]) for name in ('renormalized_frequencies', 'linewidth')]
                        pts = np.concatenate([np.array([x, y + w / 2]).T, np.array([x, y - w / 2]).T])
                        miss = min(np.abs(b[:, None] - pts[None]).sum(2).min(0).max() for b in boxes)
                        ctx.check(miss < 1e-5, 'the linewidth of branch %d is not drawn around its frequency (%g off)' % (j, miss))
        elif which == 'shifts':
            fs, _ = draw(ctx, qp.plot_linewidths_and_shifts_bands, 'shifts and linewidths', 4)
            data = qp.get_renormalized_phonon_dispersion_bands(with_linewidths=True, band_connection=True, interconnect_bands=True)
            titles = {'linewidth': 'Phonon linewidths', 'harmonic_frequencies': 'Harmonic phonon dispersion relations',
                      'frequency_shifts': 'Frequency shifts', 'renormalized_frequencies': 'Renormalized phonon dispersion relations'}
            for name, title in titles.items():
                mine = [f for f in fs if f.get_suptitle() == title]
                ctx.check(len(mine) == 1, '%d figures are titled %s' % (len(mine), title))
                same_curves(ctx, mine[0].axes[0], [(s['q_path_distances'], s[name]['branch_%d' % j]) for s in data for j in range(n3)],
                            title)
                check_ticks(mine[0].axes[0], title)
                # a branch keeps its colour from one segment to the next
                lines = [l for l in mine[0].axes[0].get_lines() if len(l.get_xdata()) == case['res'] + 1]
                if n3 <= 10:      # matplotlib has ten colours
                    for j in range(n3):
                        cols = set()
                        for s in data:
                            x, y = np.array(s['q_path_distances']), np.array(s[name]['branch_%d' % j])
                            near = [l.get_color() for l in lines if _distance((l.get_xdata(), l.get_ydata()), x, y) < 1e-7 * (1 + np.abs(y).sum())]
                            ctx.check(len(near) > 0, '%s: branch %d is not drawn' % (title, j))
                            if len(near) == 1:
                                cols.add(near[0])
                        ctx.check(len(cols) <= 1, '%s: branch %d changes its colour' % (title, j))
        elif which == 'mesh':
            (f,), _ = draw(ctx, qp.plot_frequencies_vs_linewidths, 'linewidths')
            _, _, fr, w = qp.get_mesh_frequencies_and_linewidths()
            got = np.vstack([z.get_offsets() for z in f.axes[0].collections])
            want = np.array([np.ravel(fr), np.ravel(w)]).T
            ctx.check(len(got) == len(want), '%d points drawn, %d on the mesh' % (len(got), len(want)))
            ctx.close(got[np.lexsort(np.round(got, 6).T)], want[np.lexsort(np.round(want, 6).T)], 'linewidths of the mesh', rtol=1e-6, atol=2e-6)
        elif which == 'thermal':
            # display of thermal properties: densities of states of phonons, and of the motion if asked
            motion, normalize = case['harmonic'], case['chain']
            qp.parameters.silent = False
            fc = qp.get_renormalized_force_constants()
            (f,), text = draw(ctx, lambda: qp.display_thermal_properties(from_power_spectrum=motion, normalize_dos=normalize), 'thermal properties')
            qp.parameters.silent = True
            lines = sum([curves(ax) for ax in f.axes], [])
            ctx.check(len(lines) == (3 if motion else 2), 'thermal properties: %d curves' % len(lines))
            if motion:
                T, fq = qp.get_temperature(), np.array(qp.get_frequency_range())
                y = 2 * 1.60217662e-19 * np.array(qp.get_power_spectrum_full()) / (1.38064852e-23 * T * np.prod(dim))
                if normalize:
                    from scipy.integrate import simpson
                    y = y / (simpson(y, x=fq) / (3 * len(c.elements)))
                miss = [_distance(l, fq, y) if len(l[0]) == len(fq) else np.inf for l in lines]
                ctx.check(min(miss) < 1e-5 * (1 + np.abs(y).sum()), 'thermal properties: no curve is the density of states of the motion')
                lines.pop(int(np.argmin(miss)))
            same_density(ctx, lines[0], density(qp.dynamic.structure, (3, 3, 3)), 'thermal properties: harmonic density of states')
            same_density(ctx, lines[1], density(qp.dynamic.structure, (3, 3, 3), fc=fc), 'thermal properties: renormalized density of states')
        else:
            r = which == 'rdos'
            fc = qp.get_renormalized_force_constants() if which != 'dos' else None
            if which == 'spectrum':
                (f,), _ = draw(ctx, qp.plot_power_spectrum_full, 'spectrum')
                lines = sum([curves(ax) for ax in f.axes], [])
                ctx.check(len(lines) == 3, 'spectrum and two densities of states: %d curves' % len(lines))
                spec = np.array(qp.get_power_spectrum_full())
                lines.pop(int(np.argmin([_distance(l, qp.get_frequency_range(), spec) for l in lines])))
            else:
                (f,), _ = draw(ctx, lambda: qp.plot_dos_phonopy(force_constants=fc), 'density of states')
                lines = sum([curves(ax) for ax in f.axes], [])
                ctx.check(len(lines) == (2 if r else 1), '%d densities of states' % len(lines))
            kw = {}
            if which == 'spectrum':
                fq = qp.get_frequency_range()
                kw = dict(freq_min=fq[0], freq_max=fq[-1], freq_pitch=qp.parameters.spectrum_resolution)
            same_density(ctx, lines[0], density(qp.dynamic.structure, (3, 3, 3), **kw), 'harmonic density of states')
            if len(lines) > 1:
                same_density(ctx, lines[1], density(qp.dynamic.structure, (3, 3, 3), fc=fc, **kw), 'renormalized density of states')


SUBS = [Sub('curves', curves_strategy, run_curves, quick=32, thorough=600),
        Sub('displacements', dist_strategy, distribution, quick=36, thorough=1500),
        Sub('gaussian', gauss_strategy, gauss, quick=16, thorough=400),
        Sub('modes', modes_strategy, modes, quick=18, thorough=250),
        Sub('bands', bands_strategy, bands, quick=40, thorough=250, shards=2)]
