"""Gravity of a 1D interface."""
import math

import numpy as np
from hypothesis import strategies as st

from vh import also, strat as S
from vh.core import Part, call, need

PROPERTY = 'M01'
RULE = ('A case is a topographic profile with spacing, level and density contrast; oracles are the Parker sum written as a real '
        'cosine/sine transform matrix, the closed-form attraction of a periodic relief summed in space (no Fourier transform), and '
        'linearity, flatness, shift, reversal laws. Non-trivial: the topography is not flat.')
G = 6.673e-11


@st.composite
def cases(draw, sizes=st.one_of(st.integers(2, 9), st.integers(2, 70))):
    n = draw(sizes)
    return dict(n=n, dx=draw(st.one_of(st.sampled_from([100., 1000., 500.]), S.dec(50, 5000, 1))), x0=draw(st.one_of(st.just(0.), S.dec(-1e6, 1e6, 0))),
                base=draw(S.dec(-6000, 1000, 0)), kind=draw(st.sampled_from(['noise', 'bump', 'ramp', 'step', 'wave', 'flat', 'spike'])), rel=draw(st.sampled_from([.02, .1, .2])),
                height=draw(st.sampled_from([3., 5., 8., 30.])), rho=draw(st.one_of(st.sampled_from([1000., 1030, 2700., 400., -500.]), S.dec(-3000, 3000, 0))), seed=draw(S.seeds),
                k=draw(S.dec(-3, 3, 1)), shift=draw(S.dec(-5000, 5000, 0)), ints=draw(st.booleans()))


def profile(c):
    rng = np.random.default_rng(c['seed'])
    n = c['n']
    i = np.arange(n)
    r = dict(noise=rng.uniform(-1, 1, n), bump=np.exp(-((i - n * rng.uniform(0, 1)) / (1 + n / 8.)) ** 2), ramp=np.linspace(-1, 1, n) if n > 1 else np.zeros(n),
             step=np.where(i > n * rng.uniform(0, 1), 1., -1.), wave=np.sin(2 * np.pi * i / n * rng.integers(1, 4) + 1), flat=np.zeros(n), spike=(i == rng.integers(0, n)) * 1.)[c['kind']]
    z0 = c['height'] * c['dx']  # height of observation above the mean level
    topo = c['base'] + r * c['rel'] * z0 / 2
    if c['ints']:
        topo = np.round(topo)
    return topo, float(topo.mean() + z0)


def parker(topo, dx, zlev, rho):
    n = len(topo)
    h = np.concatenate([np.full(2 * n, topo[0]), topo, np.full(2 * n, topo[-1])]) - topo.mean()
    N = 5 * n
    s = np.arange(N)
    out = np.zeros(N)
    for j in range(1, N // 2 + 1):
        k = 2 * np.pi * j / (N * dx)
        co, si = np.cos(2 * np.pi * j * s / N), np.sin(2 * np.pi * j * s / N)
        w = (1. if 2 * j == N else 2.) / N * math.exp(-k * (zlev - topo.mean()))
        for p in range(1, 6):
            f = h ** p * k ** (p - 1) / math.factorial(p) * w
            out += (f @ co) * co + (f @ si) * si
    return 2 * np.pi * G * rho * 1e5 * out[2 * n:3 * n]


def direct(topo, dx, zlev, rho):
    """Attraction of the (periodically repeated) relief by summing closed-form sheets; minus the mean the series leaves out."""
    n = len(topo)
    h = np.concatenate([np.full(2 * n, topo[0]), topo, np.full(2 * n, topo[-1])]) - topo.mean()
    z0, P = zlev - topo.mean(), 5 * n * dx
    d = (np.arange(2 * n, 3 * n)[:, None] - np.arange(5 * n)[None, :]) * dx
    co = np.cos(2 * np.pi * d / P)
    g = np.log((np.cosh(2 * np.pi * z0 / P) - co) / (np.cosh(2 * np.pi * (z0 - h) / P) - co)).sum(axis=1) * dx * G * rho
    return (g - 2 * np.pi * G * rho * h.mean()) * 1e5


def run(c, ctx):
    from shipgrav.grav import grav1d_padded
    topo, zlev = profile(c)
    n, dx = c['n'], c['dx']
    x = c['x0'] + dx * np.arange(n)

    def go(t, z=zlev, r=c['rho'], xx=x):
        a = np.asarray(call(grav1d_padded, xx.copy(), t.copy(), z, r))
        need(a.shape == (n,) and a.dtype.kind == 'f', '%d points give %s %s', n, a.shape, a.dtype)
        return a
    a = go(topo)
    amp = 2 * np.pi * G * 1e5 * max(abs(c['rho']), 1.) * (np.abs(topo - topo.mean()).max() + 1e-5 * (1 + np.abs(topo).max()))
    ex = x[-1] if n else 0
    rel = 1e-9 + 1e-14 * abs(c['x0']) / dx * 100  # x enters only through its spacing

    def same(got, want, what, t=rel):
        d = np.abs(got - want).max()
        need(d <= t * amp, '%s: off by %.3g of %.3g mGal (%d points, %s)', what, d, amp, n, c['kind'])
    same(a, parker(topo, dx, zlev, c['rho']), 'fifth-order Parker series')
    trunc = (3 * c['rel']) ** 6 / 720 + 3 * math.exp(-np.pi * c['height'] * (1 - c['rel']))  # (left-out orders; aliasing)
    same(a, direct(topo, dx, zlev, c['rho']), 'direct summation of the relief', 1e-8 + rel + 3 * trunc)
    if c['kind'] == 'flat':
        need(np.abs(a).max() <= 1e-9 * amp + 1e-12, 'flat topography gives %g', np.abs(a).max())
    same(go(topo, r=c['k'] * c['rho']), c['k'] * a, 'linearity in density', rel * (1 + abs(c['k'])))
    same(go(topo + c['shift'], z=zlev + c['shift']), a, 'shifting topography and level together', rel + 1e-10 * abs(c['shift']) / (np.abs(topo - topo.mean()).max() + 1e-6) * 1e-2 + 1e-10)
    same(go(topo, xx=x + 12345.), a, 'moving the x origin', rel + 1e-7)
    same(go(topo[::-1]), a[::-1], 'reversing the profile')
    ctx.label('even' if n % 2 == 0 else 'odd', c['kind'])
    ctx.nontrivial(np.ptp(topo) > 0)


@st.composite
def surveys(draw):
    c = draw(cases(st.one_of(st.sampled_from([1000, 1001, 2048, 4096, 5001]), st.integers(400, 5200))))
    return dict(c, height=draw(st.sampled_from([8., 12., 30.])), rel=draw(st.sampled_from([.02, .1])), at=draw(st.lists(S.dec(0, 1, 4), min_size=12, max_size=12)), ints=False)


def survey(c, ctx):
    """A whole line of up to thousands of points, against the direct sum at some of them."""
    from shipgrav.grav import grav1d_padded
    topo, zlev = profile(c)
    n, dx = c['n'], c['dx']
    a = np.asarray(call(grav1d_padded, c['x0'] + dx * np.arange(n), topo.copy(), zlev, c['rho']))
    need(a.shape == (n,), '%d points give %s', n, a.shape)
    at = np.unique([0, 1, n // 2, n - 2, n - 1] + [int(f * (n - 1)) for f in c['at']])
    h = np.concatenate([np.full(2 * n, topo[0]), topo, np.full(2 * n, topo[-1])]) - topo.mean()
    z0, P = zlev - topo.mean(), 5 * n * dx
    # cosh(u) - cos(v), each less one, so that nothing is lost over long lines
    half = 2 * np.sin(np.pi * ((2 * n + at)[:, None] - np.arange(5 * n)[None, :]) / (5 * n)) ** 2
    g = np.log((2 * np.sinh(np.pi * z0 / P) ** 2 + half) / (2 * np.sinh(np.pi * (z0 - h) / P) ** 2 + half)).sum(axis=1) * dx * G * c['rho']
    want = (g - 2 * np.pi * G * c['rho'] * h.mean()) * 1e5
    amp = 2 * np.pi * G * 1e5 * max(abs(c['rho']), 1.) * (np.abs(h).max() + 1e-5 * (1 + np.abs(topo).max()))
    d = np.abs(a[at] - want)
    tol = 1e-7 + 3 * (3 * c['rel']) ** 6 / 720 + 9 * math.exp(-np.pi * c['height'] * (1 - c['rel'])) + 1e-12 * abs(c['x0']) / dx
    need(d.max() <= tol * amp, 'point %d of a line of %d: off by %.3g of %.3g mGal from the direct sum', at[d.argmax()], n, d.max(), amp)
    ctx.label(c['kind'])
    ctx.nontrivial(np.ptp(topo) > 0)


PARTS = [Part('whole lines', surveys(), survey, quick=60, thorough=1500, shards=4), Part('profiles', cases(), run, quick=2400, thorough=16000, shards=8),
         Part('long profiles', cases(st.sampled_from([100, 128, 201, 256, 333])), run, quick=24, thorough=400, shards=8)] + also.parts(PROPERTY)
