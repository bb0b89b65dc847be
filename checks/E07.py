"""Every result depends only on the samples around it: one changed sample, and records cut into pieces."""
import datetime as dt
import importlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import strat as S
from vh.core import Part, call, need

PROPERTY = 'E07'
RULE = ('A case is a function, a record, and either one sample of one series replaced (missing, a spike, a neighbour) or a piece cut out of '
        'the record; the oracle is the result for the untouched record outside the reach of the change. Non-trivial: results on both sides '
        'of the change are compared (one side for the causal ones).')
FAR = 10 ** 9


def track(rng, n):
    return [-70. + np.cumsum(.001 * rng.normal(size=n)), 20. + np.cumsum(.001 * rng.normal(size=n))]


def tide(rng, n):
    t0 = dt.datetime(2023, 6, 16, tzinfo=dt.timezone.utc)
    return [*track(rng, n), np.array([t0 + dt.timedelta(seconds=int(i)) for i in rng.integers(0, 10 ** 7, n)], dtype=object)], dict(alt=float(rng.integers(0, 100)))


def eotvos(rng, n):
    return [*track(rng, n), 5 * rng.normal(size=n), float(rng.integers(1, 4))], {}


def walks(k, level, step, *tail):
    return lambda rng, n: ([level + step * rng.normal(size=n) for _ in range(k)] + list(tail), {})


def up(rng, n):
    # (kept in these arrays: acceleration, flags; the flags are the samples to leave out)
    return [float(rng.integers(1, 3)), 980000. + 30 * rng.normal(size=n), 5000 * rng.normal(size=n), 5000 * rng.normal(size=n), (rng.integers(0, 4, n) > 0).astype(float), 240., .7, 180., .6], {}


def thermal(*tail, time=False):
    def make(rng, n):
        return [rng.uniform(1., 150., n) * (1. if time else 1000.)] + [np.array(t, float) if isinstance(t, list) else t for t in tail], dict(time=time)
    return make


Z = [0., 100., 3000., 20000., 70000., 130000.]
# name: module, function, series arguments, maker, samples reached backwards and forwards, may be missing, results lost at a cut (start, end)
FUNCTIONS = {
    'tide': ('grav', 'longman_tide_prediction', (0, 1), tide, 0, 0, True, 0, 0),
    'eotvos': ('grav', 'eotvos_full', (0, 1, 2), eotvos, 1, 1, True, 1, 1),
    'free air': ('grav', 'free_air_second_order', (0, 1), walks(2, 40., 3.), 0, 0, True, 0, 0),
    'normal': ('grav', 'wgs_grav', (0,), walks(1, 40., 3.), 0, 0, True, 0, 0),
    'first difference': ('grav', 'center_diff', (0,), walks(1, 0., 10., 1, 2.), 1, 1, True, 0, 0),
    'second difference': ('grav', 'center_diff', (0,), walks(1, 0., 10., 2, 2.), 1, 1, True, 0, 0),
    'up-vectors': ('grav', 'up_vecs', (1, 2, 3, 4), up, 0, FAR, False, 0, 0),
    'half-space': ('grav', 'therm_halfspace', (0,), thermal(Z), 0, 0, True, 0, 0),
    'half-space by age': ('grav', 'therm_halfspace', (0,), thermal(Z, time=True), 0, 0, True, 0, 0),
    'half-space isotherm': ('grav', 'therm_Z_halfspace', (0,), thermal(700.), 0, 0, True, 0, 0),
    'half-space isotherm by age': ('grav', 'therm_Z_halfspace', (0,), thermal(700., time=True), 0, 0, True, 0, 0),
    'plate': ('grav', 'therm_plate', (0,), thermal(Z), 0, 0, True, 0, 0),
    'plate by age': ('grav', 'therm_plate', (0,), thermal(Z, time=True), 0, 0, True, 0, 0),
    'plate isotherms': ('grav', 'therm_Z_plate', (0,), thermal([300., 1200., 700., 50.], time=True), 0, 0, False, 0, 0),
    'velocities': ('nav', 'latlon_to_EN', (0, 1), lambda rng, n: (track(rng, n), {}), 5, 5, True, 5, 5),
    'course': ('nav', 'ENvel_to_course_heading', (0, 1), walks(2, 0., 5.), 0, 0, True, 0, 0),
    'rotation': ('nav', 'rotate_acceleration_EN_to_cl', (0, 1, 2), walks(3, 90., 30.), 0, 0, True, 0, 0),
    'filter': ('utils', 'gaussian_filter', (0,), lambda rng, n: ([100 * rng.normal(size=n), int(rng.integers(4, 11))], {}), 0, 12, True, 12, 0),
}


def plain(r):
    """What came back, as arrays whose last axis runs along the record."""
    if isinstance(r, tuple):
        return [a for x in r for a in plain(x)]
    a = np.asarray(r, float)
    return [np.moveaxis(a, 0, -1) if a.ndim == 2 and a.shape[1] == 3 and a.shape[0] != 3 else a]


def same(g, t):
    scale = np.abs(t[np.isfinite(t)]).max(initial=1e-300)
    with np.errstate(invalid='ignore'):
        return ((np.abs(g - t) <= 1e-9 * scale) | (np.isnan(g) & np.isnan(t)) | (g == t))


def setup(c):
    mod, name, which, make, back, fore, miss, _, _ = FUNCTIONS[c['f']]
    fn = getattr(importlib.import_module('shipgrav.' + mod), name)
    args, kw = make(np.random.default_rng(c['seed']), c['n'])
    copies = lambda: [np.array(a) if isinstance(a, np.ndarray) else a for a in args]
    return fn, args, kw, copies


@st.composite
def cases(draw, names=None):
    f = draw(st.sampled_from(names or sorted(FUNCTIONS)))
    n = draw(st.one_of(st.integers(12, 60), st.integers(60, 400)))
    return dict(f=f, n=n, seed=draw(S.seeds), at=draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1, n // 2]))),
                what=draw(st.sampled_from(['missing', 'spike', 'neighbour', 'zero'])), all=draw(st.booleans()), frame=draw(st.booleans()))


def change(c, ctx):
    _, _, which, _, back, fore, miss, _, _ = FUNCTIONS[c['f']]
    fn, args, kw, copies = setup(c)
    n, k = c['n'], c['at']
    what = 'spike' if c['what'] == 'missing' and not miss else c['what']
    truth = plain(call(fn, *copies(), **dict(kw)))
    new = copies()
    for j in which if c['all'] else [which[c['seed'] % len(which)]]:
        if c['f'] == 'up-vectors' and j == 4:
            new[j][k] = 1 - new[j][k]
        else:
            v = {'missing': np.nan, 'spike': 1.5 * new[j][k] + .25, 'neighbour': new[j][k - 1], 'zero': 0. if 'isotherm' not in c['f'] and c['f'] != 'up-vectors' else new[j][k] * .5}[what]
            if j == 1 and c['f'] in ('tide', 'eotvos', 'velocities'):
                v = min(v, 89.) if v == v else v
            new[j][k] = v
    if c['frame']:
        new = [pd.Series(a) if isinstance(a, np.ndarray) and a.ndim == 1 and j in which else a for j, a in enumerate(new)]
    with np.errstate(all='ignore'):
        got = plain(call(fn, *new, **dict(kw)))
    both = 0
    hit = None
    if what == 'missing':  # which results does this sample enter?  Those that a small change of it moves
        probe = copies()
        for j in which:
            if isinstance(new[j], (np.ndarray, pd.Series)) and np.isnan(np.asarray(new[j], float)[k]):
                probe[j][k] += 1e-3 * (1 + abs(probe[j][k]))
        hit = plain(call(fn, *probe, **dict(kw)))
    for q, (g, t) in enumerate(zip(got, truth)):
        need(g.shape == t.shape, '%s with sample %d %s: shape %s, before %s', c['f'], k, what, g.shape, t.shape)
        m = g.shape[-1]
        if m not in (n, n - 2):
            continue
        at = np.arange(m) + (n - m) // 2
        if c['f'] == 'eotvos':  # (the ends repeat their neighbours)
            at[0], at[-1] = 1, n - 2
        out = (at < k - back) | (at > k + fore)
        bad = ~same(g, t)[..., out]
        need(not bad.any(), '%s: changing sample %d of %d (%s) changed the results of samples %s', c['f'], k, n, what, np.unique(at[out][np.nonzero(bad)[-1]])[:8])
        if hit is not None:
            lost = ~same(hit[q], t) & ~np.isnan(g)
            need(not lost.any(), '%s: sample %d of %d is missing, but the results of samples %s that are computed from it are not', c['f'], k, n, np.unique(at[np.nonzero(lost)[-1]])[:8])
        both += out[:1].any() + out[-1:].any()
    ctx.label(c['f'], what)
    ctx.nontrivial(both > 0)


@st.composite
def cuts(draw, names=None):
    f = draw(st.sampled_from(names or sorted(FUNCTIONS)))
    n = draw(st.one_of(st.integers(26, 80), st.integers(80, 500)))
    a = draw(st.integers(0, n - 13)) if f != 'up-vectors' else 0  # (which start from rest)
    return dict(f=f, n=n, seed=draw(S.seeds), a=a, b=draw(st.integers(a + 13, n)), wild=draw(st.one_of(st.none(), st.integers(0, n - 1))))


def cut(c, ctx):
    which = FUNCTIONS[c['f']][2] + ((2,) if c['f'] == 'tide' else ())
    lost, last = FUNCTIONS[c['f']][7:]
    fn, args, kw, copies = setup(c)
    n, a, b = c['n'], c['a'], c['b']
    if c.get('wild') is not None and a + 3 < c['wild'] < b - 3:  # a wild sample stays one, in the piece and in the whole
        j = which[c['seed'] % (len(which) - (c['f'] in ('tide', 'up-vectors')))]
        args[j][c['wild']] += .3 * abs(args[j][c['wild']]) + 1.
    truth = plain(call(fn, *copies(), **dict(kw)))
    piece = [x[a:b] if j in which else x for j, x in enumerate(copies())]
    got = plain(call(fn, *piece, **dict(kw)))
    some = 0
    for g, t in zip(got, truth):
        m = g.shape[-1]
        if t.shape[-1] not in (n, n - 2):
            continue
        need(m == t.shape[-1] - n + b - a, '%s: a piece of %d samples gives %d results, all %d give %d', c['f'], b - a, m, n, t.shape[-1])
        i = slice(lost if a else 0, m - (last if b < n else 0))
        ok = same(g[..., i], t[..., a:a + m][..., i])
        need(ok.all(), '%s: samples %d to %d alone give other results than in the whole record, at %s', c['f'], a, b, a + np.unique(np.nonzero(~ok)[-1])[:8])
        some += ok.size
    ctx.label(c['f'])
    ctx.nontrivial(some > 0 and (a > 0 or b < n))


@st.composite
def long_cuts(draw):
    f = draw(st.sampled_from(sorted(set(FUNCTIONS) - {'plate isotherms'})))
    n = draw(st.sampled_from([3000, 9000, 20000]))
    a = draw(st.integers(0, n - 1200)) if f != 'up-vectors' else 0
    return dict(f=f, n=n, seed=draw(S.seeds), a=a, b=draw(st.integers(a + 1200, n)), wild=draw(st.one_of(st.none(), st.integers(0, n - 1))))


def every():
    return [dict(f=f, n=30 + 7 * i, seed=10 * i + k, at=(0, 15, 29 + 7 * i)[k % 3], what=w, all=bool(k % 2), frame=bool((i + k) % 2))
            for i, f in enumerate(sorted(FUNCTIONS)) for k, w in enumerate(['missing', 'spike', 'neighbour', 'zero', 'missing', 'missing'])]


def days():
    return [dict(f=f, n=90_001, seed=i, a=a if f != 'up-vectors' else 0, b=b, wild=None) for i, f in enumerate(sorted(set(FUNCTIONS) - {'plate isotherms'})) for a, b in ((41_000, 44_001), (85_555, 90_001))]


PARTS = [Part('one sample changed', cases(), change, quick=1200, thorough=24000, shards=8),
         Part('a piece cut out', cuts(), cut, quick=600, thorough=12000, shards=8),
         Part('long records', long_cuts(), cut, quick=16, thorough=400, shards=8),
         Part('day records', None, cut, shards=8, exhaustive=days),
         Part('every function', None, change, shards=4, exhaustive=every)]
