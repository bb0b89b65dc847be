"""Gravity of a topographic grid."""
import math

import numpy as np
from hypothesis import strategies as st

from vh import also, strat as S
from vh.core import Part, call, need

PROPERTY = 'M02'
RULE = ('A case is a depth grid (even/odd, non-square), spacings, density, offset, order and the fold switch; oracles are the '
        'Parker sum by explicit transform matrices on the (mirrored) grid, the attraction of the relief summed over point masses in '
        'space, and linearity, flatness, flip, transpose laws. Non-trivial: the grid is not flat and not square.')
G = 6.673e-11


@st.composite
def cases(draw, size=st.one_of(st.integers(1, 6), st.integers(2, 12))):
    base = draw(st.one_of(S.dec(500, 6000, 0), S.dec(500, 11000, 0), S.dec(-3000, 500, 0)))  # (heights as well as depths)
    dz = draw(st.sampled_from([0, 0., 1000., 6000, 12000.] if base >= 500 else [6000, 12000.]))
    return dict(nx=draw(size), ny=draw(size), dx=draw(st.sampled_from([1., .5, 2., 1.3, 10.])), dy=draw(st.sampled_from([1., .5, 2., .9, 7.])), drho=draw(st.sampled_from([.6, 1.7, 1., -.3, .05])),
                dz=dz, fold=draw(st.sampled_from([True, False, True, False, 1, 0, None])), power=draw(st.one_of(st.integers(1, 6), st.integers(1, 9), st.none())),
                base=base, amp=draw(st.sampled_from([0., 10., 100., 300.] + [v for v in (2000., 5000.) if v < .7 * (base + dz)])), seed=draw(S.seeds), k=draw(S.dec(-3, 3, 1)), kind=draw(st.sampled_from(['noise', 'ramp', 'point', 'wave'])))


def grid(c):
    rng = np.random.default_rng(c['seed'])
    ny, nx = c['ny'], c['nx']
    i, j = np.mgrid[:ny, :nx]
    r = dict(noise=rng.uniform(-1, 1, (ny, nx)), ramp=(i - ny / 2.) / ny + .7 * (j - nx / 2.) / nx, point=((i == rng.integers(0, ny)) & (j == rng.integers(0, nx))) * 1.,
             wave=np.sin(2 * np.pi * j / nx + .4) * np.cos(2 * np.pi * i / ny + 1.))[c['kind']]
    return c['base'] + c['amp'] * r


def dft(n):
    a = np.arange(n)
    return np.exp(-2j * np.pi * np.outer(a, a) / n)


def waven(n, d):
    a = np.arange(n)
    return 2 * np.pi * np.where(a <= n - a, a, n - a) / (n * d)


def parker(Z, dx, dy, drho, dz, fold, power):
    ny, nx = Z.shape
    h = Z.mean() - Z  # metres up from the mean depth
    if fold:
        h = np.block([[h, h[:, ::-1]], [h[::-1], h[::-1, ::-1]]])
    K = np.sqrt(waven(h.shape[0], dy * 1e3)[:, None] ** 2 + waven(h.shape[1], dx * 1e3)[None, :] ** 2)
    A, B = dft(h.shape[0]), dft(h.shape[1])
    F = 0
    for p in range(1, power + 1):
        t = A @ (h ** p) @ B * (K ** (p - 1)) / math.factorial(p)
        F = F + np.where(K == 0, 0, t)
    F = F * np.exp(-K * (Z.mean() + dz))
    g = (A.conj() @ F @ B.conj()).real / h.size
    return (2 * np.pi * G * drho * 1e3 * 1e5 * g)[:ny, :nx]


def run(c, ctx):
    from shipgrav.grav import grav2d_folding
    Z = grid(c)
    ny, nx = Z.shape
    fold, power = c['fold'] if c['fold'] is not None else True, c['power'] or 5
    X, Y = np.arange(nx) * c['dx'], np.arange(ny) * c['dy']

    def go(z, drho=c['drho'], x=X, y=Y, dx=c['dx'], dy=c['dy'], pos=False):
        kw = {}
        if c['fold'] is not None:
            kw['ifold'] = c['fold']
        if c['power'] is not None:
            kw['npower'] = c['power']
        r = np.asarray(call(grav2d_folding, x, y, z.copy(), dx, dy, drho=drho, dz=c['dz'], **kw))
        need(r.shape == (len(y), len(x)) and r.dtype.kind == 'f', 'a %s grid gives %s %s', z.shape, r.shape, r.dtype)
        return r
    a = go(Z)
    h = max(np.abs(Z - Z.mean()).max(), 1e-9 * (1 + abs(c['base'])))
    kz = math.pi * math.hypot(1 / c['dx'], 1 / c['dy']) * 1e-3 * h
    amp = 2 * np.pi * G * 1e8 * abs(c['drho']) * h * max(1., kz ** (power - 1) / math.factorial(power))

    def same(got, want, what, t=1e-9):
        need(np.abs(got - want).max() <= t * amp, '%s: off by %.3g of %.3g mGal (%d x %d, fold %s)', what, np.abs(got - want).max(), amp, ny, nx, fold)
    same(a, parker(Z, c['dx'], c['dy'], c['drho'], c['dz'], fold, power), 'Parker series of order %d' % power)
    same(go(Z, drho=c['k'] * c['drho']), c['k'] * a, 'linearity in density', 1e-9 * (1 + abs(c['k'])))
    same(go(Z[::-1]), a[::-1], 'flipping the rows')
    same(go(Z[:, ::-1]), a[:, ::-1], 'flipping the columns')
    same(go(Z.T.copy(), x=Y, y=X, dx=c['dy'], dy=c['dx']), a.T, 'transposing')
    same(go(np.full_like(Z, c['base'])), 0, 'flat grid')
    ctx.label('fold' if fold else 'periodic', 'order %d' % power, 'odd' if nx % 2 or ny % 2 else 'even')
    ctx.nontrivial(np.ptp(Z) > 0 and nx != ny)


@st.composite
def small(draw):
    return dict(n=draw(st.lists(st.integers(4, 9), min_size=2, max_size=2)), d=draw(st.lists(st.sampled_from([1., 1.5, 2.]), min_size=2, max_size=2)), fold=draw(st.booleans()), seed=draw(S.seeds),
                above=draw(st.sampled_from([3., 5.])), drho=draw(st.sampled_from([.6, 1.7])))


def masses(c, ctx):
    """Low relief: the anomaly is the pull of the (periodic or mirrored) extra mass, added up in space."""
    from shipgrav.grav import grav2d_folding
    ny, nx = c['n']
    dy, dx = c['d']
    rng = np.random.default_rng(c['seed'])
    depth = c['above'] * max(dx, dy) * 1e3
    dz = depth * .25
    Z = depth - dz + rng.uniform(-1, 1, (ny, nx)) * 1e-3 * depth
    a = np.asarray(call(grav2d_folding, np.arange(nx), np.arange(ny), Z.copy(), dx, dy, drho=c['drho'], dz=dz, ifold=c['fold']))
    h = Z.mean() - Z
    if c['fold']:
        h = np.block([[h, h[:, ::-1]], [h[::-1], h[::-1, ::-1]]])
    my, mx = h.shape
    z = Z.mean() + dz
    R = 6
    oy, ox = (np.arange(-R * my, (R + 1) * my)) * dy * 1e3, (np.arange(-R * mx, (R + 1) * mx)) * dx * 1e3
    ker = z / (oy[:, None] ** 2 + ox[None, :] ** 2 + z * z) ** 1.5
    per = ker.reshape(2 * R + 1, my, 2 * R + 1, mx).sum(axis=(0, 2))  # the kernel wrapped onto one period
    want = np.zeros((ny, nx))
    for i in range(ny):
        for j in range(nx):
            want[i, j] = (h * per[(i - np.arange(my))[:, None] % my, (j - np.arange(mx))[None, :] % mx]).sum()
    want *= G * c['drho'] * 1e3 * dx * dy * 1e6 * 1e5
    s = 2 * np.pi * G * c['drho'] * 1e8 * np.abs(h).max()
    need(a.shape == want.shape and np.abs(a - want).max() <= 2e-3 * s, 'low relief: off by %.3g of %.3g mGal from the sum over masses', np.abs(a - want).max(), s)
    ctx.nontrivial(nx != ny)


PARTS = [Part('grids', cases(), run, quick=3000, thorough=24000, shards=8), Part('large grids', cases(st.sampled_from([2, 25, 32, 50, 64, 75])), run, quick=40, thorough=600, shards=4),
         Part('whole maps', cases(st.sampled_from([100, 128, 151, 200, 256])), run, quick=8, thorough=100, shards=4),
         Part('point masses', small(), masses, quick=160, thorough=3000, shards=4)] + also.parts(PROPERTY)
