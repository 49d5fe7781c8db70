"""P10: power spectra by fast Fourier transform."""
import sys
import types

import numpy as np
from hypothesis import strategies as st

from vlib import calc, gen
from vlib.core import Sub

PROPERTY = 'P10'
RULE = ('complex series (sinusoids plus noise), lengths from 3 to 200 steps, resolutions giving one or many segments, '
        'frequency windows below and above the Nyquist frequency, every FFT back end (CUDA and CuPy through stand-in '
        'modules computing the same operations with numpy); reference from the definition; also quadratic scaling, '
        'independence of columns and of a complex phase; non-trivial when the run is cut in several segments')

CONV = 0.00010585723


def cuda_modules():
    """Stand-ins for the GPU packages: the same operations on the CPU."""
    cf = types.ModuleType('cuda_functions')
    cf.cuda_acorrelate = lambda x, mode='same': np.correlate(x, x, mode=mode)
    cf.cuda_fft = lambda x: np.fft.fft(x)
    cp = types.ModuleType('cupy')
    for name in dir(np):
        if not name.startswith('_'):
            try:
                setattr(cp, name, getattr(np, name))
            except Exception:
                pass
    cp.asnumpy = np.asarray
    return {'cuda_functions': cf, 'cupy': cp}


class StandIns:
    def __enter__(self):
        self.saved = {}
        for k, m in cuda_modules().items():
            self.saved[k] = sys.modules.get(k)
            sys.modules[k] = m

    def __exit__(self, *a):
        for k, m in self.saved.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


class Run:
    """What the spectrum functions ask of the trajectory."""

    def __init__(self, dt):
        self.dt = dt

    def get_time_step_average(self):
        return self.dt


def segments(n, dt, res):
    P = int(round(1. / (dt * res)))
    K = (n - 1) // P if P else 0
    if K < 1:
        return [(0, n)], 1
    return [((i * (n - P)) // K, (i * (n - P)) // K + P) for i in range(K + 1)], K + 1


def autocorrelation(x):
    """C[m] = sum_j conj(x_j) x_{j+m} / N at lags m = -(N//2) .. N-1-N//2."""
    N = len(x)
    out = np.zeros(N, complex)
    for k in range(N):
        lag = k - N // 2
        a = x[:N - lag] if lag >= 0 else x[-lag:]
        b = x[lag:] if lag >= 0 else x[:lag]
        out[k] = (a.conj() * b).sum() / N
    return out


def reference(x, dt, freqs):
    seg, k = segments(len(x), dt, freqs[1] - freqs[0])
    total = 0
    for a, b in seg:
        total = total + np.abs(np.fft.fft(autocorrelation(x[a:b]))) * dt
    total = total / len(seg)
    f = np.fft.fftshift(np.fft.fftfreq(len(total), dt))
    return np.interp(freqs, f, np.fft.fftshift(total)) * CONV


def series(seed, n, ncol, dt, noise=0.3):
    r = gen.rng(seed)
    t = np.arange(n)[:, None] * dt
    out = np.zeros((n, ncol), complex)
    for _ in range(3):
        f = r.uniform(-0.5, 0.5, size=ncol) / dt
        out += r.uniform(0.2, 2, size=ncol) * np.exp(2j * np.pi * (f * t + r.uniform(0, 1, size=ncol)))
    return out + noise * (r.normal(size=out.shape) + 1j * r.normal(size=out.shape))


def strategy():
    return st.fixed_dictionaries({
        'n': st.integers(3, 200), 'piece': st.integers(2, 120), 'frac': st.integers(-30, 30), 'dt': st.integers(1, 50),
        'ncol': st.integers(1, 4), 'seed': gen.seeds(), 'nf': st.integers(2, 40), 'f0': st.integers(-10, 40),
        'alg': st.sampled_from([2, 3, 4, 5]), 'silent': st.booleans()})


def boundary(n, dt, res):
    """The piece length is not within rounding of a half integer, and segment starts are not ambiguous."""
    p = 1. / (dt * res)
    return abs(p - np.floor(p) - 0.5) < 1e-6


def run(case, ctx):
    from dynaphopy.power_spectrum import power_spectrum_functions as psf
    from dynaphopy.parameters import Parameters
    dt = case['dt'] / 1000.
    n = case['n']
    res = 1. / (dt * (case['piece'] + case['frac'] / 100.))
    freqs = case['f0'] * res / 3. + np.arange(case['nf']) * res
    res = freqs[1] - freqs[0]
    if boundary(n, dt, res):
        return
    x = series(case['seed'], n, case['ncol'], dt)
    keep = x.copy()
    par = Parameters(silent=case['silent'], frequency_range=freqs)
    seg, k = segments(n, dt, res)
    ctx.nontrivial(k > 2)
    ctx.event('algorithm %d' % case['alg'])
    ctx.event('one segment' if k == 1 else 'two segments' if k == 2 else 'more segments')
    with StandIns():
        f = psf[case['alg']][0]
        got = f(x, Run(dt), par)
        ctx.check(np.array_equal(x, keep), 'the series was modified')
        want = np.array([reference(x[:, i], dt, freqs) for i in range(x.shape[1])]).T
        top = np.abs(want).max()
        ctx.close(got, want, 'spectrum', rtol=1e-7, atol=1e-9 * top)
        ctx.check(np.all(np.asarray(got) >= 0), 'negative spectrum')
        # a constant factor, a phase, and each column on its own
        r = gen.rng(case['seed'] + 5)
        s = r.uniform(0.1, 9, size=x.shape[1]) * np.exp(2j * np.pi * r.uniform(size=x.shape[1]))
        ctx.close(f(x * s, Run(dt), par), want * np.abs(s) ** 2, 'spectrum of the scaled series', rtol=1e-7,
                  atol=1e-9 * top * 81)
        ctx.close(f(x[:, :1], Run(dt), par), want[:, :1], 'one column alone', rtol=1e-7, atol=1e-9 * top)


def qp_strategy():
    return st.fixed_dictionaries({
        'crystal': gen.crystal_spec(max_atoms=2, centerings=('P', 'C', 'I')), 'dim': gen.dims(1, 2, 4),
        'n': st.integers(20, 80), 'seed': gen.seeds(), 'piece': st.integers(5, 60),
        'alg': st.sampled_from([2, 3, 4, 5]), 'q': st.integers(0, 7), 'pad': st.sampled_from([0, 0, 100])})


def run_qp(case, ctx):
    """The wave-vector spectrum and the full spectrum of a calculation are sums of those of the columns."""
    from checks import P08
    c = gen.build_crystal(case['crystal'])
    dt = 0.01
    res = 1. / (dt * (case['piece'] + 0.2))
    freqs = np.arange(1, 30) * res
    if boundary(case['n'], dt, freqs[1] - freqs[0]):
        return
    with StandIns():
        qp, u, v = calc.quasiparticle(c, case['dim'], nstep=case['n'], dt=dt, seed=case['seed'], fc=False, noise=0.5)
        qp.select_power_spectra_algorithm(case['alg'])
        qp.parameters.frequency_range = freqs
        qp.parameters.zero_padding = case['pad']
        qp.parameters.use_symmetry = False
        qs = calc.commensurate_reference(c, case['dim'])
        q = qs[case['q'] % len(qs)]
        qp.set_reduced_q_vector(q)
        ctx.nontrivial(segments(case['n'], dt, res)[1] > 1)
        vc = P08.reference(c, case['dim'], v, q)
        vc = vc.reshape(len(vc), -1)
        dtx = qp.dynamic.get_time_step_average()
        want = sum(reference(vc[:, i], dtx, freqs) for i in range(vc.shape[1]))
        ctx.close(qp.get_power_spectrum_wave_vector(), want, 'wave vector spectrum', rtol=2e-3,
                  atol=1e-6 * np.abs(want).max())


SUBS = [Sub('reference', strategy, run, quick=300, thorough=12000, shards=4, tshards=5),
        Sub('quasiparticle', qp_strategy, run_qp, quick=60, thorough=1200, shards=3, tshards=3)]
