"""P11: power spectra by the maximum entropy method."""
import numpy as np
from hypothesis import strategies as st

from checks.P10 import CONV, Run
from vlib import gen
from vlib.core import Sub

PROPERTY = 'P11'
RULE = ('noisy complex, real and imaginary series of 4 to 300 steps, 1 to n-2 coefficients, any frequencies; reference '
        'Burg recursion (real and imaginary parts on their own, every data point used); metamorphic: scaling, '
        'swapping real and imaginary part, columns alone, the same call twice after other calls; too few steps are '
        'refused; memory stays bounded over many calls; non-trivial with more than two coefficients')


def burg(x, m):
    """Textbook Burg recursion: (mean square discrepancy, coefficients, distance of the squared errors from the limit)."""
    n = len(x)
    xms = np.mean(x ** 2)
    f, b = x[1:].copy(), x[:-1].copy()          # forward / backward prediction errors
    a, nearest = np.zeros(0), np.inf
    for k in range(m):
        den = np.sum(f ** 2 + b ** 2)
        nearest = min(nearest, abs(np.log(max(den, 1e-300) / 1e-6)))
        if den < 1e-6:              # nothing left to predict
            return 0.0, a, nearest
        r = 2 * np.sum(f * b) / den
        a = np.concatenate([a - r * a[::-1], [r]])
        xms *= 1 - r * r
        f, b = (f - r * b)[1:], (b - r * f)[:-1]
    return xms, a, nearest


def reference(x, dt, freqs, m):
    out = np.zeros(len(freqs))
    for part in (x.real, x.imag):
        xms, a, nearest = burg(np.array(part, float), m)
        if nearest < 1e-6:
            return None             # rounding decides
        if xms == 0:
            continue
        z = np.exp(2j * np.pi * freqs * dt)[:, None] ** np.arange(1, m + 1)
        out += xms / np.abs(1 - z.dot(a)) ** 2
    return out * dt * CONV


def series(case):
    r = gen.rng(case['seed'])
    n, ncol, dt = case['n'], case['ncol'], case['dt'] / 1000.
    t = np.arange(n)[:, None] * dt
    x = np.zeros((n, ncol), complex)
    for _ in range(2):
        f = r.uniform(-0.5, 0.5, size=ncol) / dt
        x += r.uniform(0.2, 2, size=ncol) * np.exp(2j * np.pi * (f * t + r.uniform(0, 1, size=ncol)))
    x += (0.3 + 0.7 * r.uniform()) * (r.normal(size=x.shape) + 1j * r.normal(size=x.shape))
    if case['kind'] == 'real':
        x = x.real + 0j
    elif case['kind'] == 'imag':
        x = 1j * x.imag
    return x * 10 ** (r.uniform(0, 2) - case.get('small', 0))


def strategy():
    return st.fixed_dictionaries({
        'n': st.integers(4, 300), 'm': st.integers(1, 60), 'dt': st.integers(1, 50), 'ncol': st.integers(1, 3),
        'seed': gen.seeds(), 'nf': st.integers(1, 30), 'f0': st.integers(-20, 60), 'step': st.integers(1, 400),
        'kind': st.sampled_from(['complex', 'complex', 'real', 'imag']), 'silent': st.booleans(),
        'noncontiguous': st.booleans(), 'small': st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5])})


def run(case, ctx):
    from dynaphopy.parameters import Parameters
    from dynaphopy.power_spectrum import power_spectrum_functions as psf
    dt = case['dt'] / 1000.
    m = min(case['m'], case['n'] - 2)
    x = series(case)
    if case['noncontiguous']:
        x = np.asfortranarray(np.repeat(x, 2, axis=0))[::2]
    keep = x.copy()
    freqs = case['f0'] / 10. + np.arange(case['nf']) * case['step'] / 100.
    par = Parameters(silent=case['silent'], frequency_range=freqs, number_of_coefficients_mem=m)
    ctx.nontrivial(m > 2)
    ctx.event('m %s' % ('1' if m == 1 else '2..10' if m <= 10 else 'more'))
    ctx.event(case['kind'])
    mem = psf[1][0]
    got = mem(x, Run(dt), par)
    want = [reference(x[:, i], dt, freqs, m) for i in range(x.shape[1])]
    larger = reference(x[:, -1] * 3.0, dt, freqs, m)
    if larger is None or any(w is None for w in want):
        return
    want = np.array(want).T
    ctx.event('contributes nothing' if not want.all() else 'contributes')
    tol = dict(rtol=1e-6, atol=1e-12 * np.abs(want).max())
    ctx.close(got, want, 'spectrum', **tol)
    ctx.check(np.array_equal(x, keep), 'the series was modified')
    ctx.close(mem(x.imag + 1j * x.real, Run(dt), par), want, 'real and imaginary part swapped', **tol)
    ctx.close(mem(x[:, -1:] * 3.0, Run(dt), par), larger[:, None], 'scaled last column alone', **tol)
    ctx.close(mem(x, Run(dt), par), np.asarray(got), 'the same call again', rtol=0, atol=0)


def short_strategy():
    return st.fixed_dictionaries({'n': st.integers(2, 30), 'm': st.integers(1, 60), 'seed': gen.seeds()})


def run_short(case, ctx):
    """Fewer steps than coefficients + 2 are refused, anything else is analysed."""
    from dynaphopy.parameters import Parameters
    from dynaphopy.power_spectrum import power_spectrum_functions as psf
    x = gen.rng(case['seed']).normal(size=(case['n'], 2)) + 0j
    freqs = np.arange(5) * 1.0
    par = Parameters(silent=True, frequency_range=freqs, number_of_coefficients_mem=case['m'])
    ctx.nontrivial(abs(case['n'] - case['m'] - 1) <= 2)
    refused = False
    try:
        got = psf[1][0](x, Run(0.01), par)
    except SystemExit:
        refused = True
    ctx.check(refused == (case['n'] <= case['m'] + 1), lambda: '%d steps with %d coefficients %s' % (
        case['n'], case['m'], 'refused' if refused else 'accepted'))
    if not refused:
        ctx.check(np.all(np.isfinite(got)) and np.all(got >= 0), 'spectrum not finite')


def memory_strategy():
    return st.fixed_dictionaries({'alg': st.sampled_from([1, 1, 0]), 'seed': gen.seeds(), 'm': st.integers(5, 40)})


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096


def run_memory(case, ctx):
    """Repeating one analysis does not make the process grow."""
    from dynaphopy.parameters import Parameters
    from dynaphopy.power_spectrum import power_spectrum_functions as psf
    n = 40000 if case['alg'] else 400
    x = gen.rng(case['seed']).normal(size=(n, 1)) + 0j
    freqs = np.arange(0, 2, 1.0) if case['alg'] else np.linspace(0, 30, 20000)
    par = Parameters(silent=True, frequency_range=freqs, number_of_coefficients_mem=2, correlation_function_step=200)
    f = psf[case['alg']][0]
    for _ in range(10):
        f(x, Run(0.01), par)
    before = rss()
    N = 80
    for _ in range(N):
        f(x, Run(0.01), par)
    grown = rss() - before
    ctx.nontrivial()
    ctx.check(grown < 12e6, lambda: 'memory grew by %.1f MB over %d equal calls' % (grown / 1e6, N))


SUBS = [Sub('reference', strategy, run, quick=400, thorough=20000, shards=4, tshards=5),
        Sub('too short', short_strategy, run_short, quick=150, thorough=3000, shards=2, tshards=2),
        Sub('memory', memory_strategy, run_memory, quick=3, thorough=20, shards=1, tshards=1, shrink=False)]
