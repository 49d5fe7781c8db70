"""Capturing what plt.show would have shown."""
import contextlib

import numpy as np


def summary(f):
    out = {'title': f.get_suptitle(), 'axes': []}
    for ax in f.axes:
        a = {'title': ax.get_title(), 'labels': [ax.get_xlabel(), ax.get_ylabel()], 'curves': [], 'numbers': [], 'ticks': []}
        for l in ax.get_lines():
            xyz = l.get_data_3d() if hasattr(l, 'get_data_3d') else l.get_data()
            a['curves'].append(np.array([np.asarray(z, dtype=float).ravel() for z in xyz]))
        for p in ax.patches:
            if hasattr(p, 'get_height') and hasattr(p, 'get_x'):
                a['numbers'].append(np.array([p.get_x(), p.get_y(), p.get_width(), p.get_height()], dtype=float))
        for p in ax.collections:
            off = np.ma.filled(np.ma.asarray(p.get_offsets(), dtype=float), np.nan)
            a['numbers'].append(off.ravel())
            for q in p.get_paths():
                a['numbers'].append(np.array(q.vertices, dtype=float).ravel())
        if hasattr(ax, 'get_zlim'):
            f.canvas.draw()
            for c in ax.get_children():
                if hasattr(c, '_posA_posB') and c._posA_posB is not None:
                    a['numbers'].append(np.ravel(c._posA_posB).astype(float))
        else:
            a['numbers'].append(np.array(ax.get_xlim()))
            a['ticks'] = [t.get_text() for t in ax.get_xticklabels()]
        out['axes'].append(a)
    return out


@contextlib.contextmanager
def shown(record=None):
    """List of the windows opened one after the other: each item is the list of figures of one plt.show()."""
    import matplotlib.pyplot as plt
    windows = [] if record is None else record
    plt.close('all')
    old = plt.show

    def show(*a, **k):
        figures = [summary(plt.figure(n)) for n in plt.get_fignums()]
        plt.close('all')
        windows.append(figures)
    plt.show = show
    try:
        yield windows
    finally:
        plt.show = old
        plt.close('all')


def same_windows(ctx, got, want, what, rtol=1e-6):
    ctx.check(len(got) == len(want), lambda: '%s: %d windows instead of %d' % (what, len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.check(len(a) == len(b), '%s: %d figures in window %d instead of %d' % (what, len(a), i, len(b)))
        for x, y in zip(a, b):
            same_figure(ctx, x, y, what, rtol)


def _same(ctx, a, b, msg, rtol):
    ctx.check(a.shape == b.shape, '%s: %s values instead of %s' % (msg, a.shape, b.shape))
    ctx.check(np.array_equal(np.isnan(a), np.isnan(b)), msg + ': other places without value')
    a, b = np.nan_to_num(a), np.nan_to_num(b)
    if b.size:
        ctx.close(a, b, msg, rtol=rtol, atol=rtol * 1e-2 * (1e-9 + np.abs(b).max()))


def same_figure(ctx, x, y, what, rtol):
    ctx.check(x['title'] == y['title'], '%s: figure "%s" instead of "%s"' % (what, x['title'], y['title']))
    ctx.check(len(x['axes']) == len(y['axes']), '%s: %d axes instead of %d' % (what, len(x['axes']), len(y['axes'])))
    for a, b in zip(x['axes'], y['axes']):
        name = '%s (%s)' % (what, (y['title'] + ' ' + b['title']).strip())
        for k in ('title', 'labels', 'ticks'):
            ctx.check(a[k] == b[k], lambda: '%s: %s %s instead of %s' % (name, k, a[k], b[k]))
        for k in ('curves', 'numbers'):
            ctx.check(len(a[k]) == len(b[k]), '%s: %d %s instead of %d' % (name, len(a[k]), k, len(b[k])))
            for p, q in zip(a[k], b[k]):
                if k == 'curves' and p.shape == q.shape:
                    for z in range(len(q)):
                        _same(ctx, p[z], q[z], name + ': ' + k, rtol)
                else:
                    _same(ctx, p, q, name + ': ' + k, rtol)
