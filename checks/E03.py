"""From a crustal section to its gravity, and back."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import erfinv

from checks import M01, M02, M07
from vh import refs, strat as S
from vh.core import Part, call, need

PROPERTY = 'E03'
RULE = ('A case is a section or map of the sea floor, sediment, crust, plate age and a planted variation of crustal thickness; the '
        'free-air anomaly is made by the reference formulas and reduced with the code as in the example script. What is left must be '
        'the gravity of the planted variation, and its inversion the planted thickness. Non-trivial: relief, sediment and a planted '
        'harmonic that passes the filter.')


@st.composite
def inversion(draw, nx, ny, dx, dy):
    """Planted thickness variation (harmonics of the profile or map, in km) and the inversion parameters."""
    wl = draw(st.sampled_from([30, 45., 60.]))
    ws = draw(st.sampled_from([.3, .6, .9])) * wl
    low = st.one_of(st.integers(0, 3), st.integers(0, 20))
    z = min(draw(st.sampled_from([0., 5., 6., 10])), 8. / (2 * np.pi / ws))
    return dict(nx=nx, ny=ny, dx=dx, dy=dy, zdown=z, rho=draw(st.sampled_from([.4, .5, .3])), wlarge=wl, wsmall=ws, form='flat' if ny == 1 else draw(st.sampled_from(['flat', 'grid'])),
                harm=draw(st.lists(st.tuples(low, low if ny > 1 else st.just(0), S.dec(-1.5, 1.5, 2), S.dec(0, 6, 1)).map(list), min_size=1, max_size=4)))


def planted(c):
    """Gravity of the variation and the thickness that the low-pass leaves, both (nx, ny)."""
    I, J = np.mgrid[:c['nx'], :c['ny']]
    g, t = np.zeros(I.shape), np.zeros(I.shape)
    for p, q, a, ph in c['harm']:
        i, j = p % c['nx'], q % c['ny']
        if (i, j) == (0, 0):
            continue
        k = M07.wavenumber(c, i, j)
        h = a * np.cos(2 * np.pi * (i * I / c['nx'] + j * J / c['ny']) + ph)
        g = g - 2 * np.pi * M07.G * c['rho'] * 1e5 * 1e3 * np.exp(-k * c['zdown']) * h  # thicker crust pulls less
        t = t + M07.weight(c, k) * h
    return g, t


@st.composite
def sections(draw):
    n = draw(st.one_of(st.integers(20, 80), st.integers(20, 160)))
    dx = draw(st.sampled_from([1., 1.3, 2., 5.]))
    return dict(seed=draw(S.seeds), inv=draw(inversion(n, 1, dx, draw(st.sampled_from([0, 0., 1.])))), depth=draw(S.dec(2500, 5500, 0)), relief=draw(st.sampled_from([400., 50., 1000., 400., 0.])), sed=draw(st.sampled_from([100., 1500., 700., 0.])),
                dzc=draw(st.sampled_from([6000, 5000., 7500.])), model=draw(st.sampled_from(['none', 'half space', 'half space', 'plate'])), age=draw(st.lists(S.dec(0, 80, 1), min_size=2, max_size=2)),
                dtemp=draw(st.sampled_from([50, 90, 150, 225])), Tm=draw(st.sampled_from([1350, 1300.])), a=draw(st.sampled_from([3e-5, 2.5e-5])), rhos=draw(st.sampled_from([2100, 1900.])), mean=draw(st.sampled_from([0., -40., 120.])),
                rate=draw(st.sampled_from([0, 0, .01, .035, .08])), axis=draw(st.integers(0, 3)))


def section(c, ctx):
    import shipgrav.grav as sgg
    inv = c['inv']
    n, dx = inv['nx'], inv['dx']
    rng = np.random.default_rng(c['seed'])
    x = np.arange(n) * dx * 1e3
    rough = np.cumsum(rng.normal(size=n))
    rough = (rough - rough.mean()) / (np.abs(rough - rough.mean()).max() + 1e-9)
    dep = -c['depth'] + c['relief'] * rough
    sed = c['sed'] * (1 + np.sin(2 * np.pi * np.arange(n) / n * 2 + 1)) / 2
    age = np.linspace(*c['age'], n)
    rho = [1000, c['rhos'], 2900]
    temps = np.arange(0, c['Tm'] + 1, c['dtemp'])
    if c['model'] != 'none':
        rho = np.append(rho, 3300 * (1 - c['a'] * (temps - c['Tm'])))
    else:
        rho = np.append(rho, 3300.)
    drho = np.diff(rho)
    # the free-air anomaly, by the reference formulas
    left, thick = planted(inv)
    layers = [(dep, drho[0]), (dep - sed, drho[1]), (dep - sed - c['dzc'], drho[2])]
    iso = []
    if c['model'] != 'none':
        t = age * 1e6 * refs.SECYR
        if c['model'] == 'plate':
            grid = np.arange(0, 100e3, 100.)
            T = refs.plate(age, grid, .01, 100e3, c['Tm'], True, 3300, 1000, c['a'], 1e-6)[0]
        for i in range(len(temps) - 1):
            z = 2 * np.sqrt(1e-6 * t) * erfinv(temps[i] / c['Tm']) if c['model'] == 'half space' else grid[np.abs(T - temps[i]).argmin(axis=0)]
            iso.append((dep - sed - z - c['dzc'], drho[i + 3]))
    faa = left[:, 0] + c['mean']
    size = np.abs(left).max() + .1
    for h, r in layers + iso:
        g = M01.parker(h, dx * 1e3, 0., r)
        faa = faa + g
        size += 2 * np.pi * M01.G * 1e5 * abs(r) * (1 + np.ptp(h))
    # the reduction, as in the example script
    mba = faa - call(sgg.grav1d_padded, x, dep.copy(), 0, drho[0]) - call(sgg.grav1d_padded, x, dep - sed, 0, drho[1]) - call(sgg.grav1d_padded, x, dep - sed - c['dzc'], 0, drho[2])
    rmba = mba
    where, cool = age.copy(), dict(time=True)
    if c['rate']:  # ages by distance from the ridge, on either side of it
        where, cool = age * 1e6 * c['rate'] * np.where(np.arange(n) < c['axis'] * n // 3, -1, 1), dict(u=c['rate'])
    if c['model'] == 'half space':
        for i in range(len(temps) - 1):
            z, _ = call(sgg.therm_Z_halfspace, where.copy(), temps[i], **cool, Tm=c['Tm'], a=c['a'])
            rmba = rmba - call(sgg.grav1d_padded, x, dep - sed - z - c['dzc'], 0, drho[i + 3])
    elif c['model'] == 'plate':
        zs = np.asarray(call(sgg.therm_Z_plate, where.copy(), temps[:-1].copy(), **cool, Tm=c['Tm'], a=c['a']))
        for i in range(len(temps) - 1):
            rmba = rmba - call(sgg.grav1d_padded, x, dep - sed - zs[i] - c['dzc'], 0, drho[i + 3])
    need(rmba.shape == (n,), 'the residual has shape %s for %d points', rmba.shape, n)
    d = np.abs(rmba - c['mean'] - left[:, 0])
    tol = 1e-8 * size
    need(d.max() <= tol, 'point %d of %d: %s residual is %.6f mGal, the planted variation pulls %.6f', d.argmax(), n, c['model'], rmba[d.argmax()] - c['mean'], left[d.argmax(), 0])
    (arg,), kw = M07.args(inv, rmba[:, None])
    got = M07.real(inv, call(sgg.crustal_thickness_2D, arg, **kw), 'thickness')
    s = 1e-8 * (1 + M07.scale(inv, np.array([size])))
    d = np.abs(got - thick)
    need(d.max() <= s, 'thickness at point %d of %d is %.6f km, planted %.6f (%s)', d.argmax(), n, got.real.ravel()[d.argmax()], thick.ravel()[d.argmax()], c['model'])
    ctx.label(c['model'], 'odd' if n % 2 else 'even')
    ctx.nontrivial(bool(c['relief'] and c['sed'] and np.abs(thick).max() > 1e-3))


@st.composite
def maps(draw):
    nx, ny = draw(st.integers(6, 20)), draw(st.integers(6, 20))
    return dict(seed=draw(S.seeds), inv=draw(inversion(nx, ny, draw(st.sampled_from([2., 5., 3.3])), draw(st.sampled_from([2., 4., 6.])))), depth=draw(S.dec(2500, 5500, 0)), relief=draw(st.sampled_from([400., 50., 1000., 0.])),
                dzc=draw(st.sampled_from([6000, 5000., 7500.])), fold=draw(st.booleans()), mean=draw(st.sampled_from([0., -40.])))


def chart(c, ctx):
    """The same on a map, water and Moho only."""
    import shipgrav.grav as sgg
    inv = c['inv']
    nx, ny, dx, dy = (inv[k] for k in ('nx', 'ny', 'dx', 'dy'))
    rng = np.random.default_rng(c['seed'])
    Z = c['depth'] + c['relief'] * rng.uniform(-1, 1, (ny, nx))
    left, thick = planted(inv)
    faa = left.T + c['mean'] + M02.parker(Z, dx, dy, 1.7, 0., c['fold'], 5) + M02.parker(Z, dx, dy, .4, c['dzc'], c['fold'], 5)
    X, Y = np.arange(nx) * dx, np.arange(ny) * dy
    rmba = faa - call(sgg.grav2d_folding, X, Y, Z.copy(), dx, dy, drho=1.7, dz=0, ifold=c['fold']) - call(sgg.grav2d_folding, X, Y, Z.copy(), dx, dy, drho=.4, dz=c['dzc'], ifold=c['fold'])
    size = np.abs(left).max() + 2 * np.pi * M02.G * 1e8 * 2 * (c['relief'] + 1)
    need(rmba.shape == (ny, nx), 'the residual has shape %s', rmba.shape)
    d = np.abs(rmba - c['mean'] - left.T).max()
    need(d <= 1e-8 * size, 'a %d x %d map: the residual is off by %.3g mGal from the planted variation', ny, nx, d)
    (arg,), kw = M07.args(inv, rmba.T)
    got = M07.real(inv, call(sgg.crustal_thickness_2D, arg, **kw), 'thickness')
    d = np.abs(got - thick)
    need(d.max() <= 1e-8 * (1 + M07.scale(inv, np.array([size]))), 'a %d x %d map: thickness off by %.3g km of %.3g', ny, nx, d.max(), np.abs(thick).max())
    ctx.label('fold' if c['fold'] else 'periodic')
    ctx.nontrivial(bool(c['relief'] and np.abs(thick).max() > 1e-3 and nx != ny))


PARTS = [Part('sections', sections(), section, quick=200, thorough=6000, shards=8), Part('maps', maps(), chart, quick=300, thorough=8000, shards=8)]
