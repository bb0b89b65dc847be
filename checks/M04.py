"""Half-space cooling."""
import numpy as np
from hypothesis import strategies as st

from vh import also, refs, strat as S
from vh.core import Part, call, need

PROPERTY = 'M04'
RULE = ('A case is a set of ages or signed distances, depths, isotherms and parameters (given or left at their defaults); oracles '
        'are the closed forms with an independent erf, the inverse relation between depth and temperature, and scaling laws. '
        'Non-trivial: a parameter off its default and two different ages.')
DEF = dict(u=.01, Tm=1350, rhom=3300, rhow=1000, a=3e-5, k=1e-6)


@st.composite
def params(draw, plate=False):
    p = {}
    pick = dict(u=[.005, .02, .05, .1], Tm=[1300, 1400., 1000., 1600], rhom=[3200., 3400, 3000.], rhow=[1030., 1, 0., 1020], a=[2e-5, 6e-5, 1e-5], k=[5e-7, 2e-6, 8e-7])
    if plate:
        pick['zL0'] = [100e3, 80e3, 125000., 60e3, 95000, 200e3, 250000.]
    for k, v in pick.items():
        if draw(st.booleans()):
            p[k] = draw(st.sampled_from(v))
    return p


@st.composite
def cases(draw):
    time = draw(st.sampled_from([None, True, False, True]))
    x = S.dec(0, 150, 2) if time else S.dec(-4e6, 4e6, 0)
    x = st.one_of(x, st.sampled_from([0., 1., 100.]) if time else st.sampled_from([0., -1000., 1000., 1.]))
    nz = draw(st.integers(1, 6))
    return dict(x=draw(st.lists(x, min_size=1, max_size=6)), z=draw(st.lists(st.one_of(S.dec(1, 150000, 0), st.sampled_from([0., 1., 10000.])), min_size=nz, max_size=nz)), time=time, p=draw(params()),
                iso=draw(st.lists(st.one_of(S.dec(.01, .99, 2), st.sampled_from([.9995, .9999, .0001, .001])), min_size=1, max_size=4)), ints=draw(st.booleans()))


def run(c, ctx):
    from shipgrav.grav import therm_Z_halfspace, therm_halfspace
    p = dict(DEF, **c['p'])
    kw = dict(c['p'])
    if c['time'] is not None:
        kw['time'] = c['time']
    time = bool(c['time'])
    x, z = np.array(c['x']), np.array(c['z'])
    if c['ints']:
        x, z = np.round(x).astype(int), np.round(z).astype(int)
    T, W = call(therm_halfspace, x.copy(), z.copy(), **kw)
    T, W = np.asarray(T, float), np.asarray(W, float)
    need(T.shape == (len(z), len(x)) and W.shape == (len(x),), '%d depths, %d ages give shapes %s %s', len(z), len(x), T.shape, W.shape)
    rT, rW = refs.halfspace(x, z, p['u'], p['Tm'], time, p['rhom'], p['rhow'], p['a'], p['k'])
    ok = ~np.isnan(rT)  # (age and depth both zero: undefined)
    need(np.allclose(T[ok], rT[ok], atol=1e-9 * p['Tm'], rtol=0), 'temperatures %s, error-function law %s', T, rT)
    need(np.allclose(W, rW, rtol=1e-11, atol=1e-12), 'subsidence %s, should be %s (parameters %s)', W, rW, kw)
    t = refs.age_seconds(x, p['u'], time)
    for f in c['iso']:
        iso = f * p['Tm']
        Z, W2 = call(therm_Z_halfspace, x.copy(), iso, **kw)
        Z, W2 = np.asarray(Z, float), np.asarray(W2, float)
        need(Z.shape == W2.shape == (len(x),), 'isotherm depths have shape %s for %d ages', Z.shape, len(x))
        need(np.allclose(W2, W, rtol=1e-12, atol=1e-12), 'the two functions give different subsidence: %s and %s', W, W2)
        for i in range(len(x)):
            if t[i] == 0:
                need(Z[i] == 0, 'isotherm at age zero is at %r', Z[i])
                continue
            back = p['Tm'] * refs.erf(Z[i] / (2 * np.sqrt(p['k'] * t[i])))
            need(abs(back - iso) <= 1e-9 * p['Tm'], 'depth %r at age/distance %r has temperature %r, isotherm %r', Z[i], x[i], back, iso)
            Tb = float(np.asarray(call(therm_halfspace, x[i:i + 1].copy(), np.array([Z[i]]), **kw)[0])[0, 0])
            need(abs(Tb - iso) <= 1e-9 * p['Tm'], 'the temperature at the depth %r of isotherm %r is %r', Z[i], iso, Tb)
    if not time:
        need(np.array_equal(np.asarray(call(therm_halfspace, -x, z.copy(), **kw)[1]), W), 'the two sides of the axis differ')
    else:
        q = dict(kw, u=.037)
        need(np.array_equal(np.asarray(call(therm_halfspace, x.copy(), z.copy(), **q)[0], float)[ok], T[ok]), 'spreading rate matters although ages are given')
        q = np.asarray(call(therm_halfspace, x * 4, z.copy(), **kw)[1], float)
        need(np.allclose(q, 2 * W, rtol=1e-11), 'subsidence does not grow as the square root of age')
    ctx.label('ages' if time else 'distances', *c['p'])
    ctx.nontrivial(bool(c['p']) and len(set(c['x'])) > 1)


@st.composite
def long_cases(draw):
    return dict(seed=draw(S.seeds), nx=draw(st.sampled_from([1, 50, 200, 400])), nz=draw(st.sampled_from([1, 300, 1001])), time=draw(st.sampled_from([None, True, False])), p=draw(params()), iso=draw(st.lists(S.dec(.01, .99, 2), min_size=1, max_size=2)),
                ints=draw(st.booleans()), even=draw(st.booleans()))


def long_run(c, ctx):
    rng = np.random.default_rng(c['seed'])
    hi = 150. if c['time'] else 3e6
    x = np.linspace(0 if c['time'] else -hi, hi, c['nx']) if c['even'] else rng.uniform(0 if c['time'] else -hi, hi, c['nx'])
    z = np.linspace(0, 1e5, c['nz']) if c['even'] else rng.uniform(0, 15e4, c['nz'])
    run(dict(c, x=x.tolist(), z=z.tolist()), ctx)


PARTS = [Part('large fields', long_cases(), long_run, quick=16, thorough=400, shards=4),
         Part('half space', cases(), run, quick=1600, thorough=30000, shards=8)] + also.parts(PROPERTY)
