"""What a figure shows, as plain data."""

from . import simbackend
from .target import T


def use():
    import matplotlib
    import matplotlib.pyplot as plt
    matplotlib.use('module://dst.simbackend')
    plt.close('all')
    return plt


def _r(x):
    np = T.np
    a = np.ma.filled(np.ma.asarray(x, dtype=float), np.nan) if x is not None else np.zeros(0)
    return [round(float(v), 5) + 0.0 if np.isfinite(v) else repr(float(v)) for v in a.ravel()]


def axes_digest(ax):
    from matplotlib.patches import FancyArrowPatch
    d = {'title': ax.get_title(), 'xlabel': ax.get_xlabel(), 'ylabel': ax.get_ylabel(), 'xlim': _r(ax.get_xlim()), 'ylim': _r(ax.get_ylim()), 'shown': ax.axison,
         'xticks': [t.get_text() for t in ax.get_xticklabels()], 'yticks': [t.get_text() for t in ax.get_yticklabels()]}
    lg = ax.get_legend()
    d['legend'] = None if lg is None else [t.get_text() for t in lg.get_texts()]
    d['lines'] = [[_r(x.get_xdata()), _r(x.get_ydata()), str(x.get_color()), str(x.get_marker()), str(x.get_linestyle()), str(x.get_label())] for x in ax.lines]
    d['texts'] = [[x.get_text(), _r(x.get_position())] for x in ax.texts]
    pats = []
    for x in ax.patches:
        if isinstance(x, FancyArrowPatch):
            pats.append(['arrow', _r(x._posA_posB) if getattr(x, '_posA_posB', None) is not None else None, _r(x.get_edgecolor())])
        else:
            pats.append([type(x).__name__, _r(x.get_path().vertices), _r(x.get_facecolor())])
    d['patches'] = pats
    d['collections'] = [[type(x).__name__, _r(x.get_offsets()), [_r(p.vertices) for p in x.get_paths()], _r(x.get_facecolor())] for x in ax.collections]
    d['images'] = [[_r(x.get_array()), _r(x.get_extent())] for x in ax.images]
    return d


def digest(fig):
    s = getattr(fig, '_suptitle', None)
    return {'title': None if s is None else s.get_text(), 'dpi': fig.dpi, 'size': _r(fig.get_size_inches()), 'axes': [axes_digest(a) for a in fig.axes], 'images': [_r(x.get_array())[:50] + list(x.get_array().shape) for x in fig.images]}


def alike(a, b, tol=2e-4):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= tol + tol * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if not alike(a[k], b.get(k)):
                return diff(a[k], b.get(k), path + '/' + str(k))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path}: {len(a)} instead of {len(b)} elements'
        for k, (x, y) in enumerate(zip(a, b)):
            if not alike(x, y):
                return diff(x, y, path + '/' + str(k))
    return f'{path}: {str(a)[:200]} instead of {str(b)[:200]}'


def newest(plt):
    nums = plt.get_fignums()
    from matplotlib import _pylab_helpers
    return None if not nums else _pylab_helpers.Gcf.figs[max(nums)].canvas.figure


Display = simbackend.Display
