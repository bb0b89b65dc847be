"""Eotvos correction."""
import numpy as np
from hypothesis import strategies as st

from vh import also, refs, strat as S
from vh.core import Part, call, need

PROPERTY = 'G02'
RULE = ('A case is a smooth track with heights at some sampling rate; oracles are the inertial acceleration of the platform by '
        'automatic differentiation of its position (first-order flattening: to 1e-3 mGal; full WGS84 geodesy: to the flattening '
        'error), the closed form for steady motion, and invariances. Non-trivial: moving on a course off the axes.')
R = 6.371e6


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(3, 6), st.integers(3, 80), st.integers(3, 80), st.sampled_from([200, 512, 1001, 3000])))
    samp = draw(st.one_of(st.just(1), st.sampled_from([1., 2., 10., .1, .5]), S.dec(.1, 10, 1)))
    if n > 100:
        samp = max(samp, 1)
    return dict(lat=draw(st.one_of(S.dec(-80, 80, 3), S.dec(-89.99, 89.99, 2), st.sampled_from([0., 45., -45., 70., -70., 89.9, -89.99]))), lon=draw(st.one_of(S.dec(-180, 360, 3), st.sampled_from([0., 180., -179.9999]))),
                course=draw(st.one_of(S.dec(0, 360, 1), st.sampled_from([0., 90., 180., 270.]))), v=draw(st.one_of(st.just(0.), S.dec(0, 12, 2), S.dec(0, 120, 1))),
                acc=draw(st.one_of(st.just([0., 0.]), st.lists(S.dec(-.05, .05, 3), min_size=2, max_size=2))), weave=draw(st.sampled_from([0., 0., .5, 2.])),
                h=draw(st.one_of(st.just(0.), S.dec(-50, 200, 1), S.dec(0, 10000, 0))), climb=draw(st.one_of(st.just(0.), S.dec(-5, 5, 1))), heave=draw(st.sampled_from([0., 0., .5, 3.])),
                samp=samp, n=n,
                shift=draw(S.dec(-360, 360, 2)))


@st.composite
def long_cases(draw):
    c = draw(cases())
    return dict(c, n=draw(st.sampled_from([5000, 9000, 20000])), samp=draw(st.sampled_from([1, 1., 2., 10.])), v=min(c['v'], 12.), lat=max(-70., min(70., c['lat'])), climb=c['climb'] * .1)


def track(c):
    t = np.arange(c['n']) / c['samp']
    w = 2 * np.pi * c['samp'] / 60.
    a = np.array(c['acc']) * min(1, c['samp']) * min(1., 60. / c['n'])
    th = np.radians(c['course'])
    north = c['v'] * np.cos(th) * t + a[0] * t * t / 2 - c['weave'] / w * np.sin(w * t) * np.sin(th)
    east = c['v'] * np.sin(th) * t + a[1] * t * t / 2 + c['weave'] / w * np.sin(w * t) * np.cos(th)
    m = np.degrees(1 / R)
    return c['lon'] + m * east / np.cos(np.radians(c['lat'])), c['lat'] + m * north, c['h'] + c['climb'] * t + c['heave'] * np.sin(w * t + .3)


def run(c, ctx):
    from shipgrav.grav import eotvos_full
    lon, lat, ht = track(c)
    n, samp = c['n'], c['samp']
    E = np.asarray(call(eotvos_full, lon.copy(), lat.copy(), ht.copy(), samp), float)
    need(E.shape == (n,), '%d samples gave shape %s', n, E.shape)
    need(E[0] == E[1] and E[-1] == E[-2], 'the ends %r %r do not repeat their neighbours %r %r', E[0], E[-1], E[1], E[-2])
    want = refs.eotvos(lat, lon, ht, samp)
    # rounding: second differences of angles near 2 pi (and heights up to 1e4 m) times samp^2
    tol = 1e-3 + 2e-8 * np.abs(want).max() + 2e-4 * samp ** 2
    d = np.abs(E - want)
    need((d <= tol).all(), 'sample %d: %.6f mGal, the inertial acceleration gives %.6f', d.argmax(), E[d.argmax()], want[d.argmax()])
    full = refs.eotvos(lat, lon, ht, samp, exact=True)
    base = 2 * refs.OMEGA * c['v'] * 1e5
    horizontal = (np.hypot(*c['acc']) + c['weave'] * 2 * np.pi * samp / 60.) * 1e5  # leaks in through the deviation of the normal
    d = np.abs(E - full)
    need(abs(c['lat']) > 80 or (d <= tol + 3e-5 * np.abs(full).max() + 3e-4 * base + 2e-5 * horizontal + .02 * c['v'] ** 2 / R * 1e5 + .3).all(), 'sample %d: %.4f mGal, full geodesy gives %.4f', d.argmax(), E[d.argmax()], full[d.argmax()])
    sh = np.asarray(call(eotvos_full, lon + c['shift'], lat.copy(), ht.copy(), samp), float)
    need(np.allclose(sh, E, atol=tol + 1e-3 * samp ** 2, rtol=0), 'shifting longitudes by %s changes the correction by %g', c['shift'], np.abs(sh - E).max())
    moving = c['v'] or any(c['acc']) or c['weave'] or c['climb'] or c['heave']
    if not moving:
        need((np.abs(E) <= 1e-3 + 1e-4 * samp ** 2).all(), 'a point at rest gets %s', E)
    if c['v'] > 2 and not (any(c['acc']) or c['weave'] or c['climb'] or c['heave']) and abs(c['h']) <= 200 and c['v'] * n / samp < 2e4 and abs(c['lat']) < 70:
        th = np.radians(c['course'])
        approx = (2 * refs.OMEGA * c['v'] * np.cos(np.radians(lat)) * np.sin(th) + c['v'] ** 2 / R) * 1e5
        slack = .012 * 2 * refs.OMEGA * c['v'] * 1e5 * (1 + abs(np.tan(np.radians(c['lat'])))) + .02 * c['v'] ** 2 / R * 1e5 + tol
        need((np.abs(E - approx) <= slack + .02).all(), 'steady %s m/s on course %s at %s: %.3f mGal, textbook %.3f', c['v'], c['course'], c['lat'], E[1], approx[1])
        ctx.label('textbook')
        if c['course'] == 90.:
            need((E > 0).all(), 'steady eastward motion gets %s', E)
    ctx.label('rest' if not moving else 'moving', 'vertical' if c['climb'] or c['heave'] else 'level')
    ctx.nontrivial(c['v'] > 1 and c['course'] % 90 != 0 and n > 4)


def ellipsoid(c, ctx):
    """The a and b arguments are the axes of the ellipsoid: on a sphere the result has a closed form."""
    from shipgrav.grav import eotvos_full
    r = c['r']
    th, v = np.radians(c['course']), c['v']
    t = np.arange(9.)
    lat0 = np.radians(c['lat'])
    # a parallel (east) or a meridian (north) at constant speed
    if c['east']:
        lat, lon = np.full(9, lat0), v * t / (r * np.cos(lat0))
        want = 2 * refs.OMEGA * v * np.cos(lat0) + v * v / r
    else:
        lat, lon = lat0 + v * t / r, np.full(9, th)
        want = v * v / r
    E = np.asarray(call(eotvos_full, np.degrees(lon), np.degrees(lat), np.zeros(9), 1., a=r, b=r), float)
    need(np.allclose(E, want * 1e5, atol=1e-3 + 1e-6 * abs(want) * 1e5, rtol=0), 'on a sphere of %s m: %s, closed form %s', r, E[4], want * 1e5)
    ctx.nontrivial(v > 0)


PARTS = [Part('long records', long_cases(), run, quick=12, thorough=400, shards=4),
         Part('tracks', cases(), run, quick=4000, thorough=60000, shards=8),
         Part('sphere', st.fixed_dictionaries(dict(r=st.sampled_from([6371000., 6378137., 1737400., 3389500.]), course=S.dec(0, 360, 1), v=S.dec(-50, 50, 1), lat=S.dec(-75, 75, 2),
                                                   east=st.booleans())), ellipsoid, quick=100, thorough=2000, shards=1)] + also.parts(PROPERTY)
