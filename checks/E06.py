"""What holds a series does not matter: columns of a table with any index, views, other number types."""
import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import strat as S
from vh.core import Part, call, need

PROPERTY = 'E06'
RULE = ('A case is a function, data and a holder of its series (column of a table sliced, sorted or joined from others, or indexed by time or '
        'text; strided, reversed or read-only array; whole numbers in integers); the oracle is the same call with plain arrays of doubles. '
        'Non-trivial: the holder is not the default index, or the numbers are not doubles.')
COLUMNS = ['range', 'slice', 'sorted', 'joined', 'time', 'float', 'text']
ARRAYS = ['strided', 'reversed', 'readonly', 'int64', 'int32']


def holder(kind, n):
    """A function that puts an array of length n into its holder."""
    if kind in COLUMNS:
        index = dict(range=lambda: np.arange(n), slice=lambda: np.arange(n) + 7, sorted=lambda: np.arange(n)[::-1], joined=lambda: np.arange(n) // 2,
                     time=lambda: pd.date_range('2023-06-16', periods=n, freq='s'), float=lambda: 1e3 + .5 * np.arange(n), text=lambda: ['p%d' % i for i in range(n)])[kind]()
        return lambda a: pd.DataFrame({'a': a}, index=index)['a'] if a.ndim == 1 else np.asfortranarray(a)

    def array(a):
        a = np.array(a)
        if kind in ('int64', 'int32'):
            need_int = a.dtype.kind == 'f' and (a == np.round(a)).all()
            return a.astype(kind) if need_int else a
        if kind == 'strided':
            b = np.repeat(a, 3, axis=-1)[..., ::3]
        elif kind == 'reversed':
            b = a[::-1].copy()[::-1]
        else:
            b = a.copy()
            b.flags.writeable = False
        return b
    return array


# name: (module, function, series arguments by position, maker of (args, kwargs), can take integers)
def tide(rng, w, n):
    t0 = dt.datetime(2023, 6, 16, tzinfo=dt.timezone.utc)
    return [w(-70., .01, n), w(20, .01, n), np.array([t0 + dt.timedelta(minutes=int(i)) for i in rng.integers(0, 10 ** 6, n)], dtype=object)], dict(alt=float(rng.integers(0, 100)))


def series(k, level=0., step=1.):
    return lambda rng, w, n: ([w(level, step, n) for _ in range(k)], {})


def eotvos(rng, w, n):
    return [w(-70., .001, n), w(20., .001, n), w(0., 1., n), float(rng.integers(1, 4))], {}


def coupling(rng, w, n):
    m = [w(0., 10., 2300) for _ in range(6)]
    if n % 2:
        t = np.arange(2300.) + np.where(np.arange(2300) >= 1100, 600., 0.)
        return m + [t], {}
    return m, {}


def up(rng, w, n):
    return [float(rng.integers(1, 3)), w(980000., 30., n), w(0., 5000., n), w(0., 5000., n), (rng.integers(0, 4, n) == 0).astype(float), 240., .7, 180., .6], {}


def profile(rng, w, n):
    return [np.arange(n) * 500., w(-3000., 100., n), 0., 1700.], {}


def thermal(*tail, time=False):
    def make(rng, w, n):
        x = np.round(rng.uniform(1, 150, n)) * (1. if time else 1000.)
        return [x] + [np.array(t, float) if isinstance(t, list) else t for t in tail], dict(time=time)
    return make


def crust(back):
    def make(rng, w, n):
        return [w(10., 20., n)], dict(nx=n, ny=1, dx=2., wlarge=40., wsmall=20., zdown=6., back=back)
    return make


def grid(fold):
    def make(rng, w, n):
        ny, nx = 3 + n % 5, 3 + n % 7
        return [np.arange(nx) * 1., np.arange(ny) * 1., w(3000., 50., nx * ny).reshape(ny, nx), 1., 1.5], dict(drho=.6, dz=0, ifold=fold)
    return make


def layer(rng, w, n):
    ny, nx = 3 + n % 5, 3 + n % 7
    return [w(2700., 50., nx * ny).reshape(ny, nx), 1., 1.5, 1., 5.], {}


Z = [0., 100., 3000., 20000., 70000., 130000.]
FUNCTIONS = {
    'tide': ('grav', 'longman_tide_prediction', (0, 1, 2), tide),
    'eotvos': ('grav', 'eotvos_full', (0, 1, 2), eotvos),
    'free air': ('grav', 'free_air_second_order', (0, 1), series(2, 40., 3.)),
    'normal': ('grav', 'wgs_grav', (0,), series(1, 40., 3.)),
    'coupling': ('grav', 'calc_cross_coupling_coefficients', (0, 1, 2, 3, 4, 5, 6), coupling),
    'first difference': ('grav', 'center_diff', (0,), lambda rng, w, n: ([w(0., 10., n), 1, 2.], {})),
    'second difference': ('grav', 'center_diff', (0,), lambda rng, w, n: ([w(0., 10., n), 2, 2.], {})),
    'up-vectors': ('grav', 'up_vecs', (1, 2, 3, 4), up),
    'profile': ('grav', 'grav1d_padded', (0, 1), profile),
    'grid': ('grav', 'grav2d_folding', (2,), grid(False)),
    'folded grid': ('grav', 'grav2d_folding', (2,), grid(True)),
    'layer': ('grav', 'grav2d_layer_variable_density', (0,), layer),
    'half-space': ('grav', 'therm_halfspace', (0, 1), thermal(Z)),
    'half-space by age': ('grav', 'therm_halfspace', (0, 1), thermal(Z, time=True)),
    'half-space isotherm': ('grav', 'therm_Z_halfspace', (0,), thermal(700.)),
    'half-space isotherm by age': ('grav', 'therm_Z_halfspace', (0,), thermal(700., time=True)),
    'plate': ('grav', 'therm_plate', (0, 1), thermal(Z)),
    'plate by age': ('grav', 'therm_plate', (0, 1), thermal(Z, time=True)),
    'plate isotherms': ('grav', 'therm_Z_plate', (0, 1), thermal([300., 1200., 700., 50.], time=True)),
    'thickness': ('grav', 'crustal_thickness_2D', (0,), crust(False)),
    'recovered gravity': ('grav', 'crustal_thickness_2D', (0,), crust(True)),
    'velocities': ('nav', 'latlon_to_EN', (0, 1), series(2, 30., .001)),
    'course': ('nav', 'ENvel_to_course_heading', (0, 1), series(2, 0., 5.)),
    'rotation': ('nav', 'rotate_acceleration_EN_to_cl', (0, 1, 2), series(3, 90., 30.)),
    'filter': ('utils', 'gaussian_filter', (0,), lambda rng, w, n: ([w(0., 100., n), 6 + n % 5], {})),
}


@st.composite
def cases(draw, names=None):
    f = draw(st.sampled_from(names or sorted(FUNCTIONS)))
    return dict(f=f, holder=draw(st.sampled_from(COLUMNS + ARRAYS)), n=draw(st.integers(12, 60)), seed=draw(S.seeds), missing=draw(st.integers(0, 5)) == 0, mixed=draw(st.integers(0, 3)) == 0, scalars=draw(st.sampled_from(['as given', 'int', 'numpy'])))


def scalar(v, kind):
    """A number as a caller may have it: a whole one as an integer, or out of an array."""
    if isinstance(v, (bool, np.ndarray)) or not isinstance(v, (int, float)):
        return v
    if kind == 'int' and v == int(v):
        return int(v)
    if kind == 'numpy':
        return np.float64(v) if isinstance(v, float) else np.int64(v)
    return v


def plain(r):
    """What came back, as a list of arrays."""
    if isinstance(r, tuple):
        return [a for x in r for a in plain(x)]
    if hasattr(r, 'params'):
        return [np.asarray(r.params, float)]
    if isinstance(r, pd.DataFrame):
        return [r[c].to_numpy(float) for c in r.columns]
    return [np.asarray(r, float)]


def run(c, ctx):
    import importlib
    mod, name, which, make = FUNCTIONS[c['f']]
    fn = getattr(importlib.import_module('shipgrav.' + mod), name)
    rng = np.random.default_rng(c['seed'])
    whole = c['holder'].startswith('int')

    def walk(level, step, n):
        step = 3. if whole and step < 1 else step
        v = level + step * rng.normal(size=n) if step > .1 else level + np.cumsum(step * rng.normal(size=n))
        v = np.round(v) + 0. if whole else v  # (no minus zero)
        if c['missing'] and not whole and c['f'] in ('up-vectors', 'free air', 'normal', 'course', 'rotation', 'filter', 'first difference', 'second difference'):
            v[rng.integers(0, n, 2)] = np.nan
        return v

    args, kw = make(rng, walk, c['n'])

    def copies():
        return [np.array(a) if isinstance(a, np.ndarray) else a for a in args]

    truth = plain(call(fn, *copies(), **dict(kw)))
    held = copies()
    kind = 'strided' if c['holder'] == 'readonly' and c['f'] == 'up-vectors' else c['holder']  # (up-vectors clean their accelerations in place)
    for k in which:
        if k < len(held) and not (c['mixed'] and k == which[-1] and len(which) > 1 and c['f'] != 'up-vectors'):
            held[k] = holder(kind, len(held[k]))(held[k])
    held = [scalar(v, c.get('scalars')) for v in held]
    got = plain(call(fn, *held, **{k: scalar(v, c.get('scalars')) for k, v in kw.items()}))
    need(len(got) == len(truth), '%s of %s: %d results, with arrays %d', c['f'], kind, len(got), len(truth))
    for k, (g, t) in enumerate(zip(got, truth)):
        need(g.shape == t.shape, '%s of %s: result %d has shape %s, with arrays %s', c['f'], kind, k, g.shape, t.shape)
        ok = np.isfinite(t)
        need((np.isfinite(g) == ok).all(), '%s of %s: result %d is missing at other places than with arrays', c['f'], kind, k)
        scale = np.abs(t[ok]).max(initial=0) if c['f'] not in ('coupling',) else 1e3
        bad = np.abs(g[ok] - t[ok]) > 1e-9 * scale
        need(not bad.any(), '%s of %s: result %d is %s, with arrays %s', c['f'], kind, k, g[ok][bad][:3], t[ok][bad][:3])
    ctx.label(c['f'], c['holder'])
    ctx.nontrivial(c['holder'] != 'range')


def every():
    """Every function with every holder."""
    return [dict(f=f, holder=h, n=20 + (3 * i + 5 * j + m) % 31, seed=100 * i + 10 * j + m, missing=False, mixed=bool(m), scalars=['int', 'numpy'][(i + j + m) % 2])
            for i, f in enumerate(sorted(FUNCTIONS)) for j, h in enumerate(COLUMNS + ARRAYS) for m in (0, 1)]


PARTS = [Part('holders', cases(), run, quick=1000, thorough=20000, shards=8),
         Part('every holder', None, run, shards=8, exhaustive=every)]
