"""North and east velocity from positions."""
import numpy as np
from hypothesis import strategies as st

from vh import also, refs, strat as S
from vh.core import Part, call, need, refuses

PROPERTY = 'V01'
RULE = ('A case is an analytic track (start, course, speed, curvature, weave) sampled at some frequency; the oracle is the '
        'complex-step derivative of WGS84 ECEF coordinates with the analytic rates, projected on north and east, plus '
        'invariance under longitude shifts and the placement of NaN. Non-trivial: moving in both coordinates away from the equator.')
R = 6.371e6


@st.composite
def cases(draw):
    freq = draw(st.one_of(st.sampled_from([1, 1., 10., 0.1, 2, 5., 0.5]), S.dec(.05, 20, 2)))
    n = draw(st.one_of(st.integers(11, 14), st.integers(11, 120), st.integers(11, 120), st.sampled_from([250, 513, 1024, 2001, 4000])))
    if n > 120:
        freq = max(freq, 1)
    return dict(lat=draw(st.one_of(S.dec(-85, 85, 4), st.sampled_from([0., 45., -45., 80., -80.]))), lon=draw(st.one_of(S.dec(-180, 360, 4), st.sampled_from([0., 180., -180., 179.999]))),
                course=draw(st.one_of(S.dec(0, 360, 1), st.sampled_from([0., 90., 180., 270., 45.]))), v=draw(st.one_of(S.dec(0, 15, 2), S.dec(0, 150 if n <= 120 else 15, 1))),
                acc=draw(S.dec(-.05, .05, 3)), weave=draw(S.dec(0, 2, 2)), period=draw(st.integers(40, 400)), n=n,
                freq=freq, shift=draw(S.dec(-360, 360, 2)), kind=draw(st.sampled_from(['array', 'array', 'list'])), how=draw(st.sampled_from(['keyword', 'position'])))


@st.composite
def long_cases(draw):
    c = draw(cases())
    return dict(c, n=draw(st.sampled_from([5000, 10000, 30000])), freq=draw(st.sampled_from([1, 1., 2., 10.])), v=min(c['v'], 12.), lat=max(-70., min(70., c['lat'])))


def track(c):
    """Degrees and their exact rates (per second) at the samples."""
    t = np.arange(c['n']) / c['freq']
    w = 2 * np.pi * c['freq'] / c['period']  # rad/s; period is in samples
    a = c['acc'] * min(1., c['freq']) * min(1., 100. / c['n'])
    th = np.radians(c['course'])
    along, dalong = c['v'] * t + a * t * t / 2, c['v'] + a * t
    side, dside = c['weave'] / w * np.sin(w * t), c['weave'] * np.cos(w * t)
    m = np.degrees(1 / R)
    k = m / np.cos(np.radians(c['lat']))
    lat, dlat = c['lat'] + m * (along * np.cos(th) - side * np.sin(th)), m * (dalong * np.cos(th) - dside * np.sin(th))
    lon, dlon = c['lon'] + k * (along * np.sin(th) + side * np.cos(th)), k * (dalong * np.sin(th) + dside * np.cos(th))
    return lon, lat, dlon, dlat


def run(c, ctx):
    from shipgrav.nav import latlon_to_EN
    lon, lat, dlon, dlat = track(c)
    n, f = c['n'], c['freq']
    wrap = list if c['kind'] == 'list' else np.array
    args = (wrap(lon), wrap(lat))
    if f == 1 and isinstance(f, int):
        vn, ve = call(latlon_to_EN, *args)
    elif c['how'] == 'keyword':
        vn, ve = call(latlon_to_EN, *args, freq=f)
    else:
        vn, ve = call(latlon_to_EN, *args, f)
    vn, ve = np.asarray(vn, float), np.asarray(ve, float)
    need(vn.shape == ve.shape == (n,), '%d samples gave %s and %s', n, vn.shape, ve.shape)
    edge = np.ones(n, bool)
    edge[5:n - 5] = False
    need(np.array_equal(np.isnan(vn), edge) and np.array_equal(np.isnan(ve), edge), 'NaN at %s (north) and %s (east) of %d samples', np.flatnonzero(np.isnan(vn)),
         np.flatnonzero(np.isnan(ve)), n)
    tn, te = refs.velocity_NE(np.radians(lat), np.radians(lon), np.radians(dlat), np.radians(dlon))
    top = max(np.abs(tn).max(), np.abs(te).max())
    # rounding of positions (360 deg in doubles is 6e-14 deg) and the differentiator's truncation
    tol = 3e-7 * max(1., f) + 1e-7 * top
    i = slice(5, n - 5)
    for name, got, want in (('north', vn, tn), ('east', ve, te)):
        d = np.abs(got[i] - want[i])
        need((d <= tol).all(), '%s velocity is off by %.3g of %.6g m/s at sample %d (freq %s)', name, d.max(), want[i][d.argmax()], 5 + d.argmax(), f)
    vn2, ve2 = call(latlon_to_EN, np.array(lon) + c['shift'], np.array(lat), freq=f)
    need(np.allclose(vn2[i], vn[i], atol=tol, rtol=0) and np.allclose(ve2[i], ve[i], atol=tol, rtol=0), 'shifting the longitudes by %s changes the velocities', c['shift'])
    ctx.label('south' if c['lat'] < 0 else 'north', c['kind'])
    ctx.nontrivial(c['v'] > 0.5 and c['course'] % 90 != 0 and abs(c['lat']) > 1)


@st.composite
def bad(draw):
    if draw(st.booleans()):
        n = draw(st.integers(0, 10))
        return dict(a=n, b=n, kind=draw(st.sampled_from(['array', 'list'])))
    a, b = draw(st.integers(0, 40)), draw(st.integers(0, 40))
    return dict(a=a, b=b if b != a else a + 1, kind=draw(st.sampled_from(['array', 'list'])))


def refuse(c, ctx):
    from shipgrav.nav import latlon_to_EN
    wrap = list if c['kind'] == 'list' else np.array
    refuses(latlon_to_EN, AssertionError, wrap(np.linspace(1., 2., c['a'])), wrap(np.linspace(1., 2., c['b'])))
    ctx.nontrivial(c['a'] > 1)


PARTS = [Part('long records', long_cases(), run, quick=12, thorough=400, shards=4),
         Part('tracks', cases(), run, quick=4000, thorough=40000, shards=8),
         Part('refused series', bad(), refuse, quick=150, thorough=2000, shards=1)] + also.parts(PROPERTY)
