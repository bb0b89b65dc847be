"""Course, speed and rotation."""
import numpy as np
from hypothesis import strategies as st

from vh import also, strat as S
from vh.core import Part, call, need

PROPERTY = 'V02'
RULE = ('A case is a set of velocities / a heading with accelerations, as scalars or arrays; oracles are the polar identities and '
        'the laws of an orthogonal rotation. Non-trivial: two components that are both non-zero and a heading off the axes.')
snap = lambda s: s.map(lambda x: 0. if abs(x) < 1e-12 else x)
comp = snap(st.one_of(S.floats(-30, 30), S.floats(-1e5, 1e5), S.dec(-10, 10, 1), st.sampled_from([0., 1., -1., 1e-6, -1e-6, 1e-12])))
head = st.one_of(S.floats(-360, 720), S.dec(-4000, 4000, 1), st.sampled_from([0., 90., 180., 270., 360., -90., -180., 45., 225., 135., 315.]))


@st.composite
def vels(draw):
    n = draw(st.integers(1, 8))
    return dict(v=draw(st.lists(st.tuples(comp, comp).map(list), min_size=n, max_size=n)), scalar=draw(st.booleans()))


def polar(c, ctx):
    from shipgrav.nav import ENvel_to_course_heading
    v = np.array(c['v'], float)
    if c['scalar']:
        res = [call(ENvel_to_course_heading, np.float64(e), np.float64(n)) for e, n in v]
        h, s = np.array([float(r[0]) for r in res]), np.array([float(r[1]) for r in res])
    else:
        h, s = call(ENvel_to_course_heading, v[:, 0].copy(), v[:, 1].copy())
        h, s = np.asarray(h, float), np.asarray(s, float)
    need(h.shape == s.shape == (len(v),), 'shapes %s %s', h.shape, s.shape)
    for (e, n), hh, ss in zip(v, h, s):
        m = np.hypot(e, n)
        tol = 1e-12 * m + 1e-300
        need(abs(ss - m) <= tol, 'speed of (%r, %r) is %r', e, n, ss)
        need(np.isfinite(hh), 'heading of (%r, %r) is %r', e, n, hh)
        r = np.radians(hh)
        need(abs(ss * np.sin(r) - e) <= 1e-9 * m and abs(ss * np.cos(r) - n) <= 1e-9 * m, 'velocity east %r north %r has heading %r, speed %r', e, n, hh, ss)
    ctx.nontrivial(bool(((np.abs(v) > 1e-6).all(axis=1)).any()))


@st.composite
def rots(draw):
    n = draw(st.integers(1, 8))
    return dict(h=draw(st.lists(head, min_size=n, max_size=n)), a=draw(st.lists(st.tuples(comp, comp, comp, comp).map(list), min_size=n, max_size=n)),
                k=draw(S.dec(-5, 5, 2)), form=draw(st.sampled_from(['arrays', 'scalars', 'one heading'])))


def rotate(c, ctx):
    from shipgrav.nav import rotate_acceleration_EN_to_cl as rot
    h, a = np.array(c['h'], float), np.array(c['a'], float)
    if c['form'] == 'one heading':
        h = np.full(len(h), h[0])

    def go(e, n):
        if c['form'] == 'scalars':
            r = [call(rot, float(hh), float(x), float(y)) for hh, x, y in zip(h, e, n)]
            ac, al = [np.array([float(q[i]) for q in r]) for i in (0, 1)]
        elif c['form'] == 'one heading':
            ac, al = call(rot, float(h[0]), e.copy(), n.copy())
        else:
            ac, al = call(rot, h.copy(), e.copy(), n.copy())
        ac, al = np.asarray(ac, float), np.asarray(al, float)
        need(ac.shape == al.shape == (len(h),), 'shapes %s %s', ac.shape, al.shape)
        return ac, al
    E, N = a[:, 0], a[:, 1]
    ac, al = go(E, N)
    mag = np.hypot(E, N)
    tol = 1e-9 * mag + 1e-12 * np.abs(h) * mag
    s, co = np.sin(np.radians(h)), np.cos(np.radians(h))
    ok = lambda x, y, t=tol: bool((np.abs(x - y) <= t).all())
    need(ok(al, E * s + N * co), 'heading %s, east %s north %s: long is %s', h, E, N, al)
    need(ok(ac, E * co - N * s), 'heading %s, east %s north %s: cross (to starboard) is %s', h, E, N, ac)
    need(ok(np.hypot(ac, al), mag), 'rotation changes the magnitude: %s to %s', mag, np.hypot(ac, al))
    need(ok(al * s + ac * co, E) and ok(al * co - ac * s, N), 'rotating back does not restore east and north')
    E2, N2 = a[:, 2], a[:, 3]
    bc, bl = go(E2, N2)
    cc, cl = go(E + c['k'] * E2, N + c['k'] * N2)
    t2 = tol + (1e-9 + 1e-12 * np.abs(h)) * np.hypot(E2, N2) * (1 + abs(c['k']))
    need(ok(cc, ac + c['k'] * bc, t2) and ok(cl, al + c['k'] * bl, t2), 'rotation is not linear')
    ctx.label(c['form'])
    ctx.nontrivial(bool(((np.abs(a[:, :2]) > 1e-6).all(axis=1) & (np.abs(h % 90) > 1e-6)).any()))


def ahead(c, ctx):
    """A ship accelerating along its own course feels it along the long axis only."""
    from shipgrav.nav import ENvel_to_course_heading, rotate_acceleration_EN_to_cl
    e, n = c['v']
    h, s = call(ENvel_to_course_heading, np.array([e]), np.array([n]))
    ac, al = call(rotate_acceleration_EN_to_cl, h, np.array([e]), np.array([n]))
    m = np.hypot(e, n)
    need(abs(al[0] - m) <= 1e-9 * m and abs(ac[0]) <= 1e-9 * m, 'acceleration along the course (%r, %r) gives long %r cross %r', e, n, al[0], ac[0])
    ac, al = call(rotate_acceleration_EN_to_cl, h, np.array([n]), np.array([-e]))  # to starboard
    need(abs(ac[0] - m) <= 1e-9 * m and abs(al[0]) <= 1e-9 * m, 'acceleration to starboard of (%r, %r) gives long %r cross %r', e, n, al[0], ac[0])
    ctx.nontrivial(e != 0 and n != 0)


@st.composite
def long_cases(draw):
    return dict(seed=draw(S.seeds), n=draw(st.sampled_from([300, 2000, 9000])), form=draw(st.sampled_from(['arrays', 'one heading'])), k=draw(S.dec(-5, 5, 2)))


def long_run(c, ctx):
    rng = np.random.default_rng(c['seed'])
    n = c['n']
    v = rng.normal(size=(n, 4)) * 10. ** rng.integers(-3, 4, (n, 1)) * (rng.random((n, 4)) > .05)
    polar(dict(v=v[:, :2].tolist(), scalar=False), ctx)
    rotate(dict(h=rng.uniform(-360, 720, n).tolist(), a=v.tolist(), k=c['k'], form=c['form']), ctx)


PARTS = [Part('long arrays', long_cases(), long_run, quick=16, thorough=400, shards=2),
         Part('course and speed', vels(), polar, quick=400, thorough=10000, shards=2),
         Part('rotation', rots(), rotate, quick=600, thorough=20000, shards=2),
         Part('along and abeam', st.fixed_dictionaries(dict(v=st.tuples(comp, comp).map(list))), ahead, quick=200, thorough=5000, shards=1)] + also.parts(PROPERTY)
