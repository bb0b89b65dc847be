"""Plate cooling."""
import numpy as np
from hypothesis import strategies as st

from checks.M04 import DEF, params
from vh import also, refs, strat as S
from vh.core import Part, call, need

PROPERTY = 'M05'
RULE = ('A case is a set of ages or signed distances, depths and parameters; oracles are the Fourier solution as a loop over '
        'modes, the boundary values, the heat equation by finite differences of the returned field, the half-space limit and the '
        'limits of subsidence. Non-trivial: a parameter off its default, a depth inside the plate and one below it.')


@st.composite
def cases(draw):
    time = draw(st.sampled_from([None, True, False, True]))
    x = S.dec(0, 200, 2) if time else S.dec(-4e6, 4e6, 0)
    x = st.one_of(x, st.sampled_from([0., 1., 100., 500.]) if time else st.sampled_from([0., -1000., 1000., 1.]))
    return dict(x=draw(st.lists(x, min_size=1, max_size=6)), z=draw(st.lists(st.one_of(st.sampled_from([0., .25, .5, 1., 1.01, 1.3, 3.]), S.dec(0, 1.2, 2)), min_size=1, max_size=7)), time=time,
                p=draw(params(plate=True)), ints=draw(st.booleans()))


def run(c, ctx):
    from shipgrav.grav import therm_plate
    p = dict(DEF, zL0=100e3, **{})
    p.update(c['p'])
    kw = dict(c['p'])
    if c['time'] is not None:
        kw['time'] = c['time']
    time = bool(c['time'])
    x, z = np.array(c['x']), np.array(c['z']) * p['zL0']
    if c['ints']:
        x, z = np.round(x).astype(int), np.round(z).astype(int)

    def go(xx=x, zz=z, **k):
        T, W = call(therm_plate, xx.copy(), zz.copy(), **dict(kw, **k))
        T, W = np.asarray(T, float), np.asarray(W, float)
        need(T.shape == (len(zz), len(xx)) and W.shape == (len(xx),), '%d depths, %d ages give shapes %s %s', len(zz), len(xx), T.shape, W.shape)
        return T, W
    T, W = go()
    Tm, zL = p['Tm'], p['zL0']
    rT, rW = refs.plate(x, z, p['u'], zL, Tm, time, p['rhom'], p['rhow'], p['a'], p['k'])
    need(np.allclose(T, rT, atol=1e-9 * Tm, rtol=0), 'temperatures %s, Fourier solution %s (ages/distances %s, depths %s, %s)', T, rT, x, z, kw)
    need(np.allclose(W, rW, rtol=1e-10, atol=1e-9), 'subsidence %s, should be %s (%s)', W, rW, kw)
    need(np.allclose(T[z == 0], 0, atol=1e-9 * Tm), 'the surface is at %s', T[z == 0])
    need(np.allclose(T[z >= zL], Tm, atol=1e-9 * Tm), 'the mantle below the plate is at %s', T[z >= zL])
    t = refs.age_seconds(x, p['u'], time)
    o = np.argsort(t)
    full = p['rhom'] * p['a'] * Tm * zL / (2 * (p['rhom'] - p['rhow']))
    need((np.diff(W[o]) >= -1e-9 * full).all() and (W <= full * (1 + 1e-12)).all(), 'subsidence %s at ages %s (limit %s)', W[o], t[o], full)
    old = zL ** 2 / p['k'] * 3 / refs.SECYR  # years
    xo = np.array([old / 1e6 if time else old * p['u']])
    To, Wo = go(xx=xo)
    need(np.allclose(To[z <= zL, 0], Tm * z[z <= zL] / zL, atol=1e-9 * Tm) and abs(Wo[0] - full) <= 1e-9 * full, 'an old plate is at %s with subsidence %s (limit %s)', To[:, 0], Wo, full)
    # heat equation at an interior point, from the returned field
    yr = np.array([.03, .1, .3]) * zL ** 2 / p['k'] / refs.SECYR
    e = 1e-3
    for y in yr:
        ts = np.array([y * (1 - e), y, y * (1 + e)])
        d = zL * 1e-2
        zz = zL * .37 + np.array([-d, 0., d])
        F, _ = go(xx=ts / 1e6 if time else -ts * p['u'], zz=zz)
        lhs = (F[1, 2] - F[1, 0]) / (2 * e * y * refs.SECYR)
        rhs = p['k'] * (F[2, 1] - 2 * F[1, 1] + F[0, 1]) / d ** 2
        need(abs(lhs - rhs) <= 2e-2 * abs(rhs) + 1e-6 * Tm * p['k'] / zL ** 2, 'heat equation: dT/dt = %g, k d2T/dz2 = %g at %g yr', lhs, rhs, y)
    # half-space limit: the base is not felt, the ten terms have converged
    y = .045 * zL ** 2 / p['k']
    ny = np.array([y / refs.SECYR])
    zz = zL * np.array([.05, .2, .4])
    F, _ = go(xx=ny / 1e6 if time else ny * p['u'], zz=zz)
    H = Tm * refs.erf(zz / (2 * np.sqrt(p['k'] * y)))
    need(np.allclose(F[:, 0], H, atol=6e-3 * Tm), 'a young plate is at %s, the half space at %s', F[:, 0], H)
    if time:
        need(np.array_equal(go(u=.037)[0], T), 'spreading rate matters although ages are given')
    else:
        need(np.array_equal(go(xx=-x)[0], T), 'the two sides of the axis differ')
    ctx.label('ages' if time else 'distances', *c['p'])
    ctx.nontrivial(bool(c['p']) and bool((z > zL).any()) and bool(((z > 0) & (z < zL)).any()))


@st.composite
def long_cases(draw):
    return dict(seed=draw(S.seeds), nx=draw(st.sampled_from([1, 50, 200, 400])), nz=draw(st.sampled_from([1, 300, 1001])), time=draw(st.sampled_from([None, True, False])), p=draw(params(plate=True)), ints=draw(st.booleans()), even=draw(st.booleans()))


def long_run(c, ctx):
    rng = np.random.default_rng(c['seed'])
    hi = 200. if c['time'] else 4e6
    x = np.linspace(0 if c['time'] else -hi, hi, c['nx']) if c['even'] else rng.uniform(0 if c['time'] else -hi, hi, c['nx'])
    z = np.linspace(0, 1.2, c['nz']) if c['even'] else rng.uniform(0, 1.3, c['nz'])
    run(dict(c, x=x.tolist(), z=z.tolist()), ctx)


PARTS = [Part('large fields', long_cases(), long_run, quick=16, thorough=400, shards=4),
         Part('plate', cases(), run, quick=1600, thorough=30000, shards=8)] + also.parts(PROPERTY)
