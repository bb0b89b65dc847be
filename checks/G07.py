"""Central differences."""
import numpy as np
from hypothesis import strategies as st

from vh import also, strat as S
from vh.core import Part, call, need

PROPERTY = 'G07'
RULE = ('A case is a polynomial or arbitrary series with a sampling rate and an order; oracles are the exact derivatives, linearity '
        'and the -999 refusal. Non-trivial: a non-constant series.')


@st.composite
def cases(draw):
    return dict(coef=draw(st.lists(S.dec(-5, 5, 2), min_size=4, max_size=4)), n=draw(st.integers(3, 40)), samp=draw(st.one_of(st.sampled_from([1, 2, 10, 1., .1, .5, 100.]), S.dec(.01, 100, 2))),
                seed=draw(S.seeds), unit=draw(st.sampled_from([1., 1., 1e-9, 1e6])), k=draw(S.dec(-5, 5, 1)))


def exact(c, ctx):
    from shipgrav.grav import center_diff
    n, samp = c['n'], c['samp']
    t = np.arange(n) / samp
    p = np.polynomial.Polynomial(c['coef'])
    u = c['unit']
    p, q = u * p, u * np.polynomial.Polynomial(c['coef'][:3])
    y1, y2 = q(t), p(t)
    d1 = np.asarray(call(center_diff, y1.copy(), 1, samp), float)
    d2 = np.asarray(call(center_diff, y2.copy(), 2, samp), float)
    need(d1.shape == d2.shape == (n - 2,), '%d samples give %s and %s', n, d1.shape, d2.shape)
    t1, t2 = 1e-13 * samp * (u + np.abs(y1).max()), 1e-13 * samp ** 2 * (u + np.abs(y2).max())
    need(np.allclose(d1, q.deriv(1)(t[1:-1]), atol=8 * t1, rtol=1e-12), 'first derivative of a quadratic at rate %s is %s, exact %s', samp, d1, q.deriv(1)(t[1:-1]))
    need(np.allclose(d2, p.deriv(2)(t[1:-1]), atol=16 * t2, rtol=1e-12), 'second derivative of a cubic at rate %s is %s, exact %s', samp, d2, p.deriv(2)(t[1:-1]))
    rng = np.random.default_rng(c['seed'])
    a, b = rng.normal(size=(2, n)) * 100 * u
    for o in (1, 2):
        da, db, dab = [np.asarray(call(center_diff, v, o, samp), float) for v in (a, b, a + c['k'] * b)]
        need(np.allclose(dab, da + c['k'] * db, atol=1e-9 * u * samp ** o, rtol=1e-9), 'order %d is not linear', o)
        i = int(rng.integers(0, n))
        e = np.zeros(n)
        e[i] = u
        de = np.asarray(call(center_diff, e, o, samp), float)
        need(set(np.flatnonzero(de)) <= {i - 2, i - 1, i}, 'order %d: sample %d reaches derivatives at %s', o, i, np.flatnonzero(de) + 1)
    ctx.nontrivial(any(c['coef'][1:]))


def other(c, ctx):
    from shipgrav.grav import center_diff
    r = call(center_diff, np.arange(float(c['n'])) ** 2, c['o'], 1.)
    need(np.isscalar(r) and r == -999, 'order %r returns %r', c['o'], r)
    ctx.nontrivial()


@st.composite
def long_cases(draw):
    return dict(draw(cases()), n=draw(st.sampled_from([300, 2000, 10001])), coef=[1., .5, -.25, draw(S.dec(-1, 1, 2))], samp=draw(st.sampled_from([1, 10., 100.])))


PARTS = [Part('long series', long_cases(), exact, quick=30, thorough=600, shards=2),
         Part('polynomials', cases(), exact, quick=500, thorough=10000, shards=2),
         Part('other orders', st.fixed_dictionaries(dict(n=st.integers(3, 20), o=st.sampled_from([0, 3, -1, -2, 4, 10, 1.5, 2.5]))), other, quick=60, thorough=300, shards=1)] + also.parts(PROPERTY)
