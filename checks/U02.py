"""The Gaussian filter."""
import math

import numpy as np
from hypothesis import strategies as st

from vh import also, strat as S
from vh.core import Part, call, need, refuses

PROPERTY = 'U02'
RULE = ('A case is a filter length and series (noise, steps, spikes, constants from a seed); oracles are direct convolution with '
        'the reference weights, and the FIR laws (impulse response, superposition, shift, constant gain). Non-trivial: the series '
        'is longer than the filter and not constant.')


def weights(fl):
    """Weights from the reference formulation: half-gaussian sampled at 6 sigma per length, reflected, normalised."""
    half = math.floor(.5 * fl)
    g = [math.exp(-.5 * ((half - i) * 6. / fl) ** 2) for i in range(half + 1, 0, -1)]
    w = np.array(g[1:][::-1] + [g[0]] + g[1:])
    return w / w.sum()


@st.composite
def cases(draw):
    fl = draw(st.one_of(st.integers(1, 40), st.integers(1, 300), st.sampled_from([1, 2, 3, 60, 120, 240])))
    n = fl + draw(st.one_of(st.integers(1, 5), st.integers(1, 200), st.integers(fl + 1, fl + 400)))
    return dict(fl=fl, n=n, seed=draw(S.seeds), kind=draw(st.sampled_from(['noise', 'steps', 'constant', 'impulse', 'ramp', 'grav'])),
                a=draw(S.dec(-5, 5, 2)), shift=draw(st.integers(0, 20)), lst=draw(st.booleans()), mag=draw(st.sampled_from([0, 0, -12, -6, 6, 9])))


def series(kind, n, rng, fl):
    if kind == 'noise':
        return rng.normal(size=n) * 10. ** rng.integers(-2, 4)
    if kind == 'steps':
        return np.repeat(rng.normal(size=n // 7 + 1), 7)[:n] * 100
    if kind == 'constant':
        return np.full(n, rng.normal() * 100)
    if kind == 'ramp':
        return np.arange(n) * rng.normal()
    if kind == 'grav':
        return 979000 + 50 * np.sin(np.arange(n) / 30) + rng.normal(size=n)
    x = np.zeros(n)
    x[rng.integers(0, n)] = 1.
    return x


def fir(case, ctx):
    from shipgrav.utils import gaussian_filter
    fl, n = case['fl'], case['n']
    rng = np.random.default_rng(case['seed'])
    mag = 10. ** case['mag']
    x = series(case['kind'], n, rng, fl) * mag
    scale = 1e-12 * (mag + np.abs(x).max())
    keep = x.copy()
    y = np.asarray(call(gaussian_filter, list(x) if case['lst'] else x, fl))
    need(y.shape == (n,), 'filtering %d samples gave shape %s', n, y.shape)
    need(np.array_equal(x, keep), 'the input was changed')
    w = weights(fl)
    ref = np.convolve(x, w[::-1])[:n]
    bad = np.flatnonzero(~(np.abs(y - ref) < 200 * scale))
    need(len(bad) == 0, 'length %d, %s: sample %s is %r, the reference filter gives %r', fl, case['kind'],
         bad[:1], y[bad[:1]], ref[bad[:1]])
    # laws that do not need the weights
    imp = np.zeros(2 * fl + 4)
    imp[0] = 1.
    h = np.asarray(call(gaussian_filter, imp, fl))
    need(abs(h.sum() - 1) < 1e-12, 'length %d: the gain for a constant is %r', fl, h.sum())
    need((h >= 0).all(), 'length %d: negative weights', fl)
    sup = np.flatnonzero(h > 0)
    L = sup[-1] + 1
    need(L <= fl + 1, 'length %d: the response lasts %d samples', fl, L)
    need(np.allclose(h[:L], h[:L][::-1], atol=1e-15, rtol=1e-12), 'length %d: weights are not symmetric', fl)
    x2 = series('noise', n, rng, fl) * mag
    s2 = 1e-10 * (mag + np.abs(x).max() + abs(case['a']) * np.abs(x2).max())
    y2, y12 = np.asarray(call(gaussian_filter, x2, fl)), np.asarray(call(gaussian_filter, x + case['a'] * x2, fl))
    need(np.allclose(y12, y + case['a'] * y2, atol=s2, rtol=0), 'length %d: not linear', fl)
    k = min(case['shift'], n)
    ysh = np.asarray(call(gaussian_filter, np.append(np.zeros(k), x), fl))
    need(np.allclose(ysh[k:], y, atol=200 * scale, rtol=0) and not ysh[:k].any(), 'length %d: not time-invariant', fl)
    j = int(rng.integers(0, n))
    x3 = x.copy()
    x3[j:] += 7. * mag
    y3 = np.asarray(call(gaussian_filter, x3, fl))
    need(np.array_equal(y3[:j], y[:j]) or np.allclose(y3[:j], y[:j], atol=scale, rtol=0), 'length %d: output before sample %d depends on the future', fl, j)
    c = np.asarray(call(gaussian_filter, np.full(n, 5.25), fl))
    need(np.allclose(c[L:], 5.25, atol=1e-11, rtol=0), 'length %d: a constant is not reproduced', fl)
    xn = x.copy()
    xn[j] = np.nan  # a missing sample is missing from what it would have contributed to, and from nothing else
    yn = np.asarray(call(gaussian_filter, xn, fl))
    hit = (np.arange(n) >= j) & (np.arange(n) < j + len(w))
    need(np.array_equal(np.isnan(yn), hit), 'length %d: with sample %d missing, %d outputs are missing instead of %d', fl, j, np.isnan(yn).sum(), hit.sum())
    need(np.allclose(yn[~hit], y[~hit], atol=200 * scale, rtol=0), 'length %d: a missing sample changes the output elsewhere', fl)
    ctx.label(case['kind'], 'even' if fl % 2 == 0 else 'odd')
    ctx.nontrivial(case['kind'] != 'constant')


def short(case, ctx):
    from shipgrav.utils import gaussian_filter
    refuses(gaussian_filter, AssertionError, np.ones(case['n']), case['fl'])
    ctx.nontrivial(case['n'] > 0)


@st.composite
def long_cases(draw):
    c = draw(cases())
    fl = draw(st.sampled_from([60, 240, 500, 999, 2000]))
    return dict(c, fl=fl, n=fl + draw(st.sampled_from([1, 3000, 12000])), lst=False)


PARTS = [Part('long records', long_cases(), fir, quick=16, thorough=400, shards=4),
         Part('fir laws', cases(), fir, quick=240, thorough=6000, shards=8),
         Part('too short', st.integers(1, 200).flatmap(lambda f: st.builds(lambda n: dict(fl=f, n=n), st.one_of(st.integers(0, f), st.just(f)))),
              short, quick=100, thorough=2000, shards=1)] + also.parts(PROPERTY)
