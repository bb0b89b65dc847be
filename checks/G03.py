"""Normal gravity and free-air correction."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import also, refs, strat as S
from vh.core import Part, call, need

PROPERTY = 'G03'
RULE = ('A case is a set of latitudes and heights, given as scalars, arrays, integer arrays, Series or grids; oracles are '
        "Somigliana's formula from the ellipsoid axes and the documented polynomial. Non-trivial: latitude off the equator and "
        'height not zero.')
lat_s = st.one_of(S.floats(-90, 90), S.dec(-90, 90, 2), st.sampled_from([0., 90., -90., 45., -45., 30., 60.]))
h_s = st.one_of(S.floats(-100, 10000), S.dec(-11000, 20000, 1), st.sampled_from([0., 1., -1., 1000.]))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 10))
    return dict(lat=draw(st.lists(lat_s, min_size=n, max_size=n)), h=draw(st.lists(h_s, min_size=n, max_size=n)),
                form=draw(st.sampled_from(['array', 'scalar', 'series', 'int', 'grid', 'one lat', 'one height'])), water=draw(st.sampled_from([None, True, False])))


def run(c, ctx):
    from shipgrav.grav import free_air_second_order, wgs_grav
    lat, h = np.array(c['lat']), np.array(c['h'])
    f = c['form']
    kw = {} if c['water'] is None else dict(free_water=c['water'])
    if f == 'int':
        lat, h = np.round(lat).astype(int), np.round(h).astype(int)
    if f == 'one lat':
        lat = np.full(len(lat), lat[0])
    if f == 'one height':
        h = np.full(len(h), h[0])
    if f == 'scalar':
        g = np.array([float(call(wgs_grav, float(x))) for x in lat])
        fa = np.array([float(call(free_air_second_order, float(x), float(y), **kw)) for x, y in zip(lat, h)])
    elif f == 'grid':
        g = np.asarray(call(wgs_grav, lat[:, None] + 0 * h[None, :]), float)
        need(g.shape == (len(lat), len(h)) and np.array_equal(g, np.repeat(g[:, :1], len(h), axis=1)), 'a grid gives shape %s', g.shape)
        g = g[:, 0]
        fa = np.asarray(call(free_air_second_order, lat[:, None], h[None, :], **kw), float)
        need(fa.shape == (len(lat), len(h)), 'a grid gives shape %s', fa.shape)
        need(np.allclose(fa, refs.free_air(lat[:, None], h[None, :], bool(c['water'])), atol=1e-8, rtol=1e-11), 'free air on a grid')
        fa = np.diagonal(fa)
    else:
        wrap = pd.Series if f == 'series' else np.array
        g = np.asarray(call(wgs_grav, wrap(lat)), float)
        fa = np.asarray(call(free_air_second_order, float(lat[0]) if f == 'one lat' else wrap(lat), float(h[0]) if f == 'one height' else wrap(h), **kw), float)
    need(g.shape == fa.shape == (len(lat),), 'shapes %s %s for %d latitudes', g.shape, fa.shape, len(lat))
    want = refs.normal_gravity(lat)
    need(np.allclose(g, want, atol=5e-5, rtol=0), 'normal gravity at %s is %s, Somigliana gives %s', lat, g, want)
    s2 = np.sin(np.radians(lat)) ** 2
    need(np.allclose(g, 978032.53359 * (1 + 0.00193185265241 * s2) / np.sqrt(1 - 0.00669437999014 * s2), atol=1e-6, rtol=0), 'normal gravity at %s is %s', lat, g)
    wfa = refs.free_air(lat, h, bool(c['water']))
    need(np.allclose(fa, wfa, atol=1e-8, rtol=1e-11), 'free air at %s, %s m (water: %s) is %s, should be %s', lat, h, c['water'], fa, wfa)
    gm = np.array([float(call(wgs_grav, -float(x))) for x in lat])
    need(np.allclose(gm, g, atol=1e-9, rtol=0), 'normal gravity is not symmetric about the equator')
    o = np.argsort(np.abs(lat))
    need((np.diff(g[o]) >= -1e-9).all(), 'normal gravity does not increase toward the poles: %s at %s', g[o], lat[o])
    ctx.label(f)
    ctx.nontrivial(bool(((np.abs(lat) > 1) & (np.abs(h) > 1)).any()))


@st.composite
def long_cases(draw):
    return dict(seed=draw(S.seeds), n=draw(st.sampled_from([300, 2000, 6000])), form=draw(st.sampled_from(['array', 'series', 'one lat', 'one height', 'int'])), water=draw(st.sampled_from([None, True, False])))


def long_run(c, ctx):
    rng = np.random.default_rng(c['seed'])
    run(dict(c, lat=rng.uniform(-90, 90, c['n']).tolist(), h=rng.uniform(-11000, 20000, c['n']).tolist()), ctx)


PARTS = [Part('long arrays', long_cases(), long_run, quick=16, thorough=400, shards=4), Part('values', cases(), run, quick=2000, thorough=20000, shards=4)] + also.parts(PROPERTY)
