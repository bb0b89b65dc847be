"""Platform tilt."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.signal import bilinear

from vh import also, strat as S
from vh.core import Part, call, need

PROPERTY = 'G06'
RULE = ('A case is an acceleration history on two axes with flags and NaN, and platform constants; the oracle filters with the '
        'bilinear transform of the analogue platform response run as an explicit recursion, and composes the two rotations; unit '
        'length, verticality at rest, causality and independence of the axes are laws. Non-trivial: both axes are driven.')


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 60), st.integers(1, 300)))
    dt = draw(st.sampled_from([1., 1, .1, .5, 2., 10.]))
    per = st.one_of(S.dec(5, 400, 1), st.sampled_from([240., 84.4 * 60, 60., 4.])).map(lambda p: max(p, 4.) * max(1., dt))
    damp = st.one_of(st.sampled_from([0, 0., False, .7071, .091, 1.]), S.dec(.01, 2, 2))
    return dict(n=n, dt=dt, cper=draw(per), lper=draw(per), cdamp=draw(damp), ldamp=draw(damp), kind=draw(st.sampled_from(['noise', 'step', 'sine', 'zero', 'knocks', 'cross only', 'long only'])),
                amp=draw(st.sampled_from([1e-4, .01, .1, .5])), seed=draw(S.seeds), flags=draw(st.lists(st.integers(0, n - 1), max_size=6)), flag=draw(st.sampled_from([1, 2, 5.])),
                nan=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 2)).map(list), max_size=6)), g=draw(st.sampled_from(['scalar', 'array', 'SI', 'series', 'number'])), cut=draw(st.integers(0, n)))


def tilt(x, per, dt, damp):
    damp = damp or np.sqrt(.5)
    warp = lambda w: 2 / dt * np.tan(w * dt / 2)
    w0, ws = warp(2 * np.pi / per), warp(np.sqrt(9.8 / 6371100.))
    b, a = bilinear([-2 * damp * w0, ws ** 2 - w0 ** 2], [1, 2 * damp * w0, w0 ** 2], fs=1 / dt)
    b, a = np.append(np.zeros(3 - len(b)), b) / a[0], a / a[0]
    y = np.zeros(len(x))
    for i in range(len(x)):
        acc = 0.
        for k in range(3):
            if i >= k:
                acc += b[k] * x[i - k]
                if k:
                    acc -= a[k] * y[i - k]
        y[i] = acc
    return np.arctan(y)


def run(c, ctx):
    from shipgrav.grav import up_vecs
    rng = np.random.default_rng(c['seed'])
    n = c['n']
    G = 9.8 if c['g'] == 'SI' else 980000.
    g = G + 0 * rng.normal(size=n) if c['g'] == 'scalar' else G * (1 + 1e-3 * rng.normal(size=n))
    if c['g'] in ('scalar', 'number'):
        g = np.full(n, G)
    t = np.arange(n)
    acc = dict(noise=rng.normal(size=(2, n)), step=np.outer(rng.normal(size=2), t > n // 3), sine=np.array([np.sin(t / 9.), np.cos(t / 5.)]),
               zero=np.zeros((2, n)), knocks=.02 * rng.normal(size=(2, n)))
    for i in rng.integers(0, n, 1 + n // 500):  # a calm record with a few hard knocks
        acc['knocks'][:, i] = rng.normal(size=2) * 2
    acc['cross only'] = acc['noise'] * [[1], [0]]
    acc['long only'] = acc['noise'] * [[0], [1]]
    acc = acc[c['kind']] * c['amp'] * G
    on = np.zeros(n)
    on[c['flags']] = c['flag']
    for i, w in c['nan']:
        if w < 2:
            acc[w, i] = np.nan
        elif i % 2:
            acc[:, i] = np.nan
        elif c['g'] in ('array', 'series'):
            g[i] = np.nan  # (as where the position is missing)

    def go(ca, la, flag=on, gg=g):
        gg = G if c['g'] == 'number' else pd.Series(gg, index=np.arange(len(gg)) + 7) if c['g'] == 'series' else gg.copy()
        if np.ndim(flag) and not flag.any() and c['g'] in ('series', 'number'):
            flag = np.array(0)  # as in the example script: a single 0 for all samples
        r = np.asarray(call(up_vecs, c['dt'], gg, ca.copy(), la.copy(), flag.copy() if np.ndim(flag) else 0, c['cper'], c['cdamp'], c['lper'], c['ldamp']), float)
        need(r.shape == (3, len(ca)), '%d samples gave shape %s', len(ca), r.shape)
        return r
    u = go(acc[0], acc[1])
    need(np.allclose((u ** 2).sum(axis=0), 1, atol=1e-12, rtol=0), 'lengths are %s', np.sqrt((u ** 2).sum(axis=0)))
    clean = np.nan_to_num(np.where(np.isnan(acc) | (on > 0), 0., acc) / g)
    tc, tl = tilt(clean[0], c['cper'], c['dt'], c['cdamp']), tilt(clean[1], c['lper'], c['dt'], c['ldamp'])
    even = t % 2 == 0  # the two rotations are applied in alternating order
    want = np.array([np.where(even, -np.sin(tc) * np.cos(tl), -np.sin(tc)), np.where(even, -np.sin(tl), -np.sin(tl) * np.cos(tc)), np.cos(tc) * np.cos(tl)])
    tol = 1e-9 + 1e-7 * (np.abs(np.tan(tc)).max() + np.abs(np.tan(tl)).max()) * 1e-2
    d = np.abs(u - want)
    j = np.unravel_index(d.argmax(), d.shape)
    need(d[j] <= tol, 'component %s at sample %d is %r, the platform response gives %r', 'cross long up'.split()[j[0]], j[1], u[j], want[j])
    if not clean.any():
        need((u[0] == 0).all() and (u[1] == 0).all() and (u[2] == 1).all(), 'zero acceleration gives %s', u)
    rest = go(np.zeros(n), np.zeros(n))
    need((rest[0] == 0).all() and (rest[1] == 0).all() and (rest[2] == 1).all(), 'zero acceleration gives tilted vectors')
    off = go(acc[0], acc[1], flag=np.ones(n))
    need((off[2] == 1).all() and not off[:2].any(), 'all samples flagged off, still tilted')
    k = c['cut']
    if 0 < k < n:
        part = go(acc[0, :k], acc[1, :k], flag=on[:k], gg=g[:k])
        need(np.allclose(part, u[:, :k], atol=1e-12, rtol=0), 'the first %d vectors depend on later samples', k)
    only = go(acc[0], np.zeros(n))
    need(np.allclose(only[1], 0, atol=1e-15) and np.allclose(only[0], -np.sin(tc), atol=tol), 'the cross tilt depends on the long acceleration')
    only = go(np.zeros(n), acc[1])
    need(np.allclose(only[0], 0, atol=1e-15) and np.allclose(only[1], -np.sin(tl), atol=tol), 'the long tilt depends on the cross acceleration')
    ctx.label(c['kind'], 'flags' if c['flags'] else 'no flags', 'nan' if c['nan'] else 'no nan')
    ctx.nontrivial(bool(clean[0].any() and clean[1].any()))


@st.composite
def long_cases(draw):
    n = draw(st.sampled_from([1000, 3000, 7200]))
    c = draw(cases())
    return dict(c, n=n, flags=[k * 7 % n for k in c['flags']], nan=[[k * 11 % n, w] for k, w in c['nan']], cut=draw(st.integers(0, n)))


def days():
    base = dict(dt=1., cper=240., lper=60.5, cdamp=.7, ldamp=0, kind='noise', amp=.01, flag=1, flags=[7, 60_000], nan=[[80_001, 0], [9, 2]])
    return [dict(base, n=86_401, seed=3, g='array', cut=70_001), dict(base, n=100_000, seed=4, g='number', cut=5, kind='sine')]


PARTS = [Part('day records', None, run, shards=2, exhaustive=days), Part('long histories', long_cases(), run, quick=24, thorough=600, shards=4),
         Part('histories', cases(), run, quick=2500, thorough=20000, shards=8)] + also.parts(PROPERTY)
