"""Crustal thickness."""
import numpy as np
from hypothesis import strategies as st

from vh import also, strat as S
from vh.core import Part, call, need

PROPERTY = 'M07'
RULE = ('A case is a residual made of known harmonics (or noise) on a profile or grid of any parity, with spacing, depth, density and '
        'cutoffs; oracles are the analytic continuation of each harmonic (no transform), the same relation by explicit transform '
        'matrices for noise, and linearity. Non-trivial: harmonics pass, and more than two points.')
G = 6.673e-8


@st.composite
def setups(draw):
    two = draw(st.booleans())
    nx = draw(st.one_of(st.integers(1, 9), st.integers(2, 60) if not two else st.integers(2, 14)))
    ny = draw(st.one_of(st.integers(2, 6), st.integers(2, 14))) if two else 1
    dx = draw(st.sampled_from([1.3, 1., 5., 2.5, 10., .2]))
    dy = draw(st.sampled_from([1., 2., 7., 1.3, .25])) if two else draw(st.sampled_from([0, 0, 1.]))
    L = max(nx * dx, ny * dy)
    wl = draw(st.one_of(st.sampled_from([45, 30., 60.]), S.dec(.1, 1.2, 2).map(lambda f: round(f * L, 3)).filter(lambda v: v > 0)))
    ws = draw(st.sampled_from([.3, .6, .9, .5])) * wl
    z = draw(st.sampled_from([0., 1., 5., 10, 6.]))
    z = min(z, 10. / (2 * np.pi / ws))  # (the continuation multiplies rounding noise by exp(k z))
    return dict(nx=nx, ny=ny, dx=dx, dy=dy, zdown=z, rho=draw(st.sampled_from([.4, .5, .6, .1, 1.])), wlarge=wl, wsmall=ws, seed=draw(S.seeds),
                harm=draw(st.lists(st.tuples(st.integers(0, 200), st.integers(0, 200), S.dec(-30, 30, 1), S.dec(0, 6, 1)).map(list), max_size=4)),
                mean=draw(st.sampled_from([0., 25., -140., 17.0123457])), kind=draw(st.sampled_from(['harmonics', 'harmonics', 'noise', 'long'])), form=draw(st.sampled_from(['flat', 'grid', 'fortran'])), unit=draw(st.sampled_from([1., 1., 1., 1e-5, 1e4])),
                k=draw(S.dec(-3, 3, 1)))


def wavenumber(c, i, j):
    i, j = min(i, c['nx'] - i), min(j, c['ny'] - j)
    kx = 2 * np.pi * i / (c['nx'] * c['dx'])
    ky = 2 * np.pi * j / (c['ny'] * c['dy']) if c['dy'] else 0.
    return np.hypot(kx, ky)


def weight(c, k):
    a, b = 2 * np.pi / c['wlarge'], 2 * np.pi / c['wsmall']
    return 1. if k <= a else 0. if k > b else .5 * (1 + np.cos((k - a) / (b - a) * np.pi))


def residual(c):
    """The residual and its parts by wavenumber: list of (k, part); a constant has k = 0."""
    I, J = np.mgrid[:c['nx'], :c['ny']]
    if c['kind'] == 'noise':
        rng = np.random.default_rng(c['seed'])
        f = rng.normal(size=(c['nx'], c['ny'])) * 20
        F = np.exp(-2j * np.pi * np.outer(range(c['nx']), range(c['nx'])) / c['nx']) @ f @ np.exp(-2j * np.pi * np.outer(range(c['ny']), range(c['ny'])) / c['ny'])
        parts = []
        for i in range(c['nx']):
            for j in range(c['ny']):
                if (i, j) != (0, 0):
                    parts.append((wavenumber(c, i, j), (F[i, j] * np.exp(2j * np.pi * (i * I / c['nx'] + j * J / c['ny']))).real / f.size))
        u = c['unit']
        return u * (f - f.mean() + c['mean']), [(k, u * p) for k, p in parts]
    parts = []
    for p, q, a, ph in c['harm']:
        i, j = p % c['nx'], q % c['ny']
        if c['kind'] == 'long':
            i, j = (i % 2) % c['nx'], (j % 2) % c['ny']
        if (i, j) != (0, 0):
            parts.append((wavenumber(c, i, j), a * np.cos(2 * np.pi * (i * I / c['nx'] + j * J / c['ny']) + ph)))
    u = c['unit']
    return u * (sum([f for _, f in parts], np.zeros(I.shape)) + c['mean']), [(k, u * p) for k, p in parts]


def args(c, f):
    a = np.asfortranarray(f) if c['form'] == 'fortran' else f.copy() if c['form'] == 'grid' else f.reshape(-1).copy()
    return (a,), dict(nx=c['nx'], ny=c['ny'], dx=c['dx'], dy=c['dy'], zdown=c['zdown'], rho=c['rho'], wlarge=c['wlarge'], wsmall=c['wsmall'])


def thickness(c, parts):
    t = np.zeros((c['nx'], c['ny']))
    for k, f in parts:
        # 0.001 Gal per mGal; 1e5 cm per km
        t = t - 1e-3 * f * weight(c, k) * np.exp(k * c['zdown']) / (2 * np.pi * G * c['rho']) / 1e5
    return t


def scale(c, f):
    return 1e-3 * (np.abs(f).max() + 1e-14) / (2 * np.pi * G * c['rho']) / 1e5 * np.exp(2 * np.pi / c['wsmall'] * c['zdown'])


def real(c, r, what):
    r = np.asarray(r)
    need(r.size == c['nx'] * c['ny'], '%s: %s values for %d x %d points', what, r.shape, c['nx'], c['ny'])
    r = r.reshape(c['nx'], c['ny'])
    return r


def run(c, ctx):
    from shipgrav.grav import crustal_thickness_2D
    f, parts = residual(c)
    a, kw = args(c, f)
    got = real(c, call(crustal_thickness_2D, *a, **kw), 'thickness')
    want, s = thickness(c, parts), scale(c, f)
    need(np.abs(got.imag).max() <= 1e-9 * s, 'the thickness has imaginary parts up to %g', np.abs(got.imag).max())
    d = np.abs(got.real - want)
    n = np.unravel_index(d.argmax(), d.shape)
    need(d[n] <= 1e-9 * s, 'thickness at point %s of %s is %.9g km, continuation of the harmonics gives %.9g', n, d.shape, got.real[n], want[n])
    if not parts:
        need(np.abs(got).max() <= 1e-9 * s, 'a constant residual gives %g', np.abs(got).max())
    rng = np.random.default_rng(c['seed'] + 1)
    o = rng.normal(size=f.shape) * 10 * c['unit']
    (b,), _ = args(c, o)
    (m,), _ = args(c, f + c['k'] * o)
    ro, rm = [real(c, call(crustal_thickness_2D, v, **kw), 'thickness') for v in (b, m)]
    need(np.abs(rm - got - c['k'] * ro).max() <= 1e-9 * (s + (1 + abs(c['k'])) * scale(c, o)), 'thickness is not linear in the residual')
    ctx.label('grid' if c['ny'] > 1 else 'profile', c['kind'], 'odd' if c['nx'] % 2 or (c['ny'] > 1 and c['ny'] % 2) else 'even')
    ctx.nontrivial(np.abs(want).max() > 1e-6 * s and f.size > 2)


@st.composite
def defaults(draw):
    return dict(n=1000, harm=draw(st.lists(st.tuples(st.integers(1, 60), S.dec(-30, 30, 1), S.dec(0, 6, 1)).map(list), min_size=1, max_size=4)), mean=draw(st.sampled_from([0., 80.])))


def dflt(c, ctx):
    """All arguments at their defaults: 1000 points by 1.3 km, 10 km down, 0.4 g/cc, 45 and 25 km."""
    from shipgrav.grav import crustal_thickness_2D
    k = dict(nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=.4, wlarge=45, wsmall=25)
    i = np.arange(1000)
    parts = [(wavenumber(k, p, 0), a * np.cos(2 * np.pi * p * i / 1000 + ph)[:, None]) for p, a, ph in c['harm']]
    f = sum(p for _, p in parts) + c['mean']
    got = real(k, call(crustal_thickness_2D, f.reshape(-1)), 'thickness')
    need(np.abs(got - thickness(k, parts)).max() <= 1e-9 * scale(k, f), 'thickness with default arguments is off by %g km', np.abs(got - thickness(k, parts)).max())
    ctx.nontrivial()


@st.composite
def large(draw):
    c = draw(setups())
    if c['ny'] > 1:
        c['nx'], c['ny'] = draw(st.sampled_from([[32, 24], [25, 33], [64, 12]]))
    else:
        c['nx'] = draw(st.sampled_from([128, 255, 400, 501]))
    return c


@st.composite
def maps(draw):
    c = draw(setups())
    if c['kind'] == 'noise':
        c['kind'] = 'harmonics'
    if c['ny'] > 1:
        c['nx'], c['ny'] = draw(st.sampled_from([[128, 100], [101, 151], [200, 60], [60, 200]]))
    else:
        c['nx'] = draw(st.sampled_from([1001, 2048, 5000]))
    return c


PARTS = [Part('whole maps', maps(), run, quick=8, thorough=150, shards=4), Part('large', large(), run, quick=32, thorough=600, shards=8), Part('residuals', setups(), run, quick=1600, thorough=30000, shards=8), Part('default arguments', defaults(), dflt, quick=30, thorough=300, shards=2)] + also.parts(PROPERTY)
