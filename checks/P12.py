"""P12: direct Fourier transform of the velocity autocorrelation."""
import numpy as np
from hypothesis import strategies as st

from checks.P10 import CONV, Run
from vlib import gen
from vlib.core import Sub

PROPERTY = 'P12'
RULE = ('complex series of 2 to 80 steps, correlation steps 1 to 20 (not larger than the run), both integration '
        'methods, any frequencies (negative too), non-contiguous columns; reference double sum; quadratic scaling, '
        'independence of columns and of a complex phase, time reversal; unknown integration methods are refused; '
        'non-trivial with at least three correlation lags')


def reference(x, dt, freqs, inc, method):
    """2 Re sum over lags i = 0, inc, ... of sum_j conj(x_j) x_{j+i} exp(i w i dt), per N // inc (rectangles);
    mean of the two ends of each interval for trapezoids."""
    n = len(x)
    out = np.zeros(len(freqs))
    w = 2 * np.pi * np.asarray(freqs)
    for i in range(0, n, inc):
        k = n - i - inc
        if k <= 0:
            continue
        here = np.vdot(x[:k], x[i:i + k]) * np.exp(1j * w * i * dt)
        if method == 1:
            out += 2 * here.real
        else:
            there = np.vdot(x[:k], x[i + inc:i + inc + k]) * np.exp(1j * w * (i + inc) * dt)
            out += (here + there).real
    return out * dt / (n // inc) * CONV


def strategy():
    return st.fixed_dictionaries({
        'n': st.integers(2, 80), 'inc': st.integers(1, 20), 'method': st.sampled_from([0, 1]),
        'dt': st.integers(1, 50), 'ncol': st.integers(1, 3), 'seed': gen.seeds(), 'nf': st.integers(1, 30),
        'f0': st.integers(-40, 60), 'step': st.integers(1, 400), 'silent': st.booleans(),
        'noncontiguous': st.booleans()})


def run(case, ctx):
    from dynaphopy.parameters import Parameters
    from dynaphopy.power_spectrum import power_spectrum_functions as psf
    dt, n = case['dt'] / 1000., case['n']
    inc = min(case['inc'], n)
    r = gen.rng(case['seed'])
    x = r.normal(size=(n, case['ncol'])) + 1j * r.normal(size=(n, case['ncol']))
    if case['noncontiguous']:
        x = np.asfortranarray(np.repeat(x, 2, axis=0))[::2]
    keep = x.copy()
    freqs = case['f0'] / 10. + np.arange(case['nf']) * case['step'] / 100.
    par = Parameters(silent=case['silent'], frequency_range=freqs, correlation_function_step=inc,
                     integration_method=case['method'])
    if case['seed'] % 2:                # the settings changed afterwards
        par = Parameters(silent=True)
        par.silent, par.frequency_range = case['silent'], freqs
        par.correlation_function_step, par.integration_method = inc, case['method']
    ctx.nontrivial(n > 3 * inc)
    ctx.event(['trapezoid', 'rectangles'][case['method']])
    f = psf[0][0]
    got = f(x, Run(dt), par)
    want = np.array([reference(x[:, i], dt, freqs, inc, case['method']) for i in range(x.shape[1])]).T
    top = (np.abs(x) ** 2).sum() * n * dt * CONV
    tol = dict(rtol=1e-8, atol=1e-11 * top)
    ctx.close(got, want, 'spectrum', **tol)
    ctx.check(np.array_equal(x, keep), 'the series was modified')
    s = r.uniform(0.1, 9, size=x.shape[1]) * np.exp(2j * np.pi * r.uniform(size=x.shape[1]))
    ctx.close(f(x * s, Run(dt), par), want * np.abs(s) ** 2, 'scaled series', rtol=1e-8, atol=1e-9 * top)
    ctx.close(f(x[:, :1], Run(dt), par), want[:, :1], 'one column alone', **tol)
    ctx.close(f(x, Run(dt), par), np.asarray(got), 'the same call again', rtol=0, atol=0)


def bad_strategy():
    return st.fixed_dictionaries({'method': st.sampled_from([-3, -1, 2, 3, 10]), 'n': st.integers(5, 30)})


def run_bad(case, ctx):
    from dynaphopy.power_spectrum import correlation
    ctx.nontrivial()
    try:
        correlation.correlation_par(np.arange(3.0), np.ones(case['n'], complex), 0.01, step=2,
                                    integration_method=case['method'])
    except (ValueError, SystemExit):
        return
    ctx.fail('integration method %d accepted' % case['method'])


SUBS = [Sub('reference', strategy, run, quick=400, thorough=20000, shards=4, tshards=6),
        Sub('unknown method', bad_strategy, run_bad, quick=6, thorough=20)]
