"""Quasiparticle calculations on generated data, and running the command line scripts in-process."""
import contextlib
import io
import os
import runpy
import sys

import numpy as np

from . import boot, gen


def quasiparticle(c, dim, nstep=32, dt=0.01, seed=0, fc=True, fcdim=None, last_steps=None, scale=0.1, noise=0.0,
                  memmap=False, velocity='given', trajectory=True, primitive=True, smode='scaled', **par):
    """(calculation, displacement, velocity) on the generated crystal."""
    import dynaphopy
    kw = {} if primitive else {'primitive_matrix': np.eye(3)}
    s = gen.make_structure(c, smode, **kw)
    if fc:
        from dynaphopy.interface.phonopy_link import ForceConstants
        fcdim = fcdim or dim
        s.set_force_constants(ForceConstants(gen.spring_force_constants(c, fcdim, seed % 97),
                                             supercell=np.diag(fcdim)))
    d, u, v = gen.make_dynamics(s, c, dim, nstep=nstep, dt=dt, seed=seed, scale=scale, noise=noise, memmap=memmap,
                                velocity=velocity, trajectory=trajectory)
    q = dynaphopy.Quasiparticle(d, last_steps=last_steps)
    for k, w in par.items():
        assert hasattr(q.parameters, k), k
        setattr(q.parameters, k, w)
    return q, u, v


def run_script(name, argv, cwd):
    """Runs /repo/scripts/<name> like the shell would, in this process; returns (exit code, stdout)."""
    path = os.path.join(boot.REPO, 'scripts', name)
    old_argv, old_cwd, old_opts = sys.argv, os.getcwd(), np.get_printoptions()
    out = io.StringIO()
    code = 0
    from .core import reset_globals
    reset_globals()
    try:
        os.chdir(cwd)
        sys.argv = [path] + [str(a) for a in argv]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                runpy.run_path(path, run_name='__main__')
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv = old_argv
        os.chdir(old_cwd)
        np.set_printoptions(**{k: v for k, v in old_opts.items() if k != 'override_repr'})
    return code, out.getvalue()


def commensurate_reference(c, dim):
    """All q (reduced coordinates of the primitive cell) commensurate with the dim supercell, inside [0,1)."""
    S = np.diag(dim).dot(c.cell)                      # rows
    B = np.linalg.inv(S).T                            # reciprocal rows of the supercell (no 2 pi)
    P = c.prim
    n = int(round(abs(np.linalg.det(S) / np.linalg.det(P))))
    # q_cart = m B ; reduced = q_cart . P^T
    T = B.dot(P.T)
    found = {}
    k = 0
    lim = 1
    while len(found) < n and lim < 40:
        import itertools
        for m in itertools.product(range(-lim, lim + 1), repeat=3):
            q = np.dot(m, T)
            q = q - np.floor(q + 1e-9)
            q = np.where(np.abs(q) < 1e-9, 0, q)
            found.setdefault(tuple(np.round(q, 6)), q)
        lim += 1
    out = np.array([found[k] for k in sorted(found)])
    assert len(out) == n, (len(out), n)
    return out
