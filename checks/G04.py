"""Cross-coupling regression."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import also, refs, strat as S
from vh.core import Part, call, need

PROPERTY = 'G04'
RULE = ('A case is five monitors with their own spectra, scales and offsets, a set of coefficients, and a signal of constant '
        'curvature; the oracle is the planted coefficient under each name, and the reference processing (one 21-point second '
        'derivative, own Blackman low-pass) of each column. Non-trivial: at least two non-zero coefficients.')
NAMES = ['ve', 'vcc', 'al', 'ax', 'lev']


@st.composite
def cases(draw):
    coef = st.one_of(S.dec(-5, 5, 3), st.sampled_from([0., 1., -1., 1e-3, -250., 1e3]))
    return dict(coef=draw(st.lists(coef, min_size=5, max_size=5)), scale=draw(st.lists(st.sampled_from([1., 1., .01, 30., 1000., -4., 1e-6, -1e-7]), min_size=5, max_size=5)),
                offset=draw(st.lists(st.one_of(st.just(0.), S.dec(-100, 100, 1), st.just(1e5)), min_size=5, max_size=5)), n=draw(st.one_of(st.integers(1000, 1003), st.integers(1100, 3000))),
                level=draw(st.sampled_from(['zero', 'data', 'data'])), quad=draw(st.lists(S.dec(-5, 5, 2), min_size=3, max_size=3)), seed=draw(S.seeds),
                kind=draw(st.sampled_from(['noise', 'waves', 'mixed'])), form=draw(st.sampled_from(['array', 'array', 'series'])), times=draw(st.sampled_from([None, None, 1, 10])))


def monitors(c, rng):
    n = c['n']
    t = np.arange(n)
    out = []
    for j in range(5):
        m = np.zeros(n)
        if c['kind'] != 'waves':
            m += rng.normal(size=n)
        if c['kind'] != 'noise':
            for _ in range(6):
                m += rng.normal() * np.sin(2 * np.pi * t / rng.uniform(60, 900) + rng.uniform(0, 6.28))
            m += .01 * rng.normal(size=n)
        out.append(m * c['scale'][j] + c['offset'][j])
    if c['level'] == 'zero':
        out[4] = np.zeros(n)
    return out


def run(c, ctx):
    from shipgrav.grav import calc_cross_coupling_coefficients as ccc
    rng = np.random.default_rng(c['seed'])
    n = c['n']
    m = monitors(c, rng)
    t = np.arange(n) / 1000.
    faa = c['quad'][0] + c['quad'][1] * t + c['quad'][2] * t * t
    co = np.array(c['coef']) / np.abs(c['scale'])  # contributions of comparable size
    if c['level'] == 'zero':
        co[4] = 0.
    for k, x in zip(co, m):
        faa = faa - k * x
    wrap = pd.Series if c['form'] == 'series' else np.array
    d = dict(zip(NAMES, m))
    kw = {} if c['times'] is None else dict(times=1.6e9 + np.arange(n) * c['times'], samplerate=c['times'])
    df, model = call(ccc, wrap(faa), wrap(d['vcc']), wrap(d['ve']), wrap(d['al']), wrap(d['ax']), wrap(d['lev']), **kw)
    need(sorted(df.columns) == sorted(NAMES + ['g']), 'columns are %s', list(df.columns))
    need(len(df) == n - 420, '%d samples give %d processed ones', n, len(df))
    biggest = max([1.] + [np.abs(x).max() for x in m] + [np.abs(faa).max()])
    for name, x in list(d.items()) + [('g', -faa)]:
        want = refs.ccp_process(x)
        need(np.allclose(df[name].values, want, atol=1e-13 * biggest + 1e-12 * np.abs(x).max(), rtol=1e-7), 'column %s is not the processed %s (off by %g of %g)', name, name,
             np.abs(df[name].values - want).max(), np.abs(want).max())
    X = np.array([refs.ccp_process(x) for x in m[:4 if c['level'] == 'zero' else 5]])
    s = X.std(axis=1)
    cond = np.linalg.cond(np.vstack([X / s[:, None], np.ones(X.shape[1])]))
    raw = np.linalg.cond(np.vstack([X, np.ones(X.shape[1])]))  # the columns are not scaled before they are inverted
    noise = 1e-14 * biggest  # rounding of the input, after two differentiations
    for j, name in enumerate(NAMES):
        p = float(model.params[name])
        if c['level'] == 'zero' and j == 4:
            need(np.isfinite(p), 'a zero level column gets parameter %r', p)
            continue
        tol = 1e-8 * np.abs(co * np.append(s, 0)[:5]).max() / s[j] * cond + 1e-14 * raw * np.abs(co * np.append(s, 0)[:5]).max() / s[j] + noise * cond / s[j] * 10
        ctx.label('tight' if tol < 1e-3 * (1 / abs(c['scale'][j])) else 'loose')
        need(abs(p - co[j]) <= tol, 'parameter %s is %r, the coefficient is %r (tolerance %.2g)', name, p, co[j], tol)
    ctx.label(c['level'], c['kind'])
    ctx.nontrivial(int((np.array(c['coef']) != 0).sum()) > 1)


@st.composite
def long_cases(draw):
    return dict(draw(cases()), n=draw(st.sampled_from([6000, 10000, 20011])))


def days():
    return [dict(coef=[1.5, -.7, 2., .3, -4.], scale=[1., 30., .01, 1000., -4.], offset=[0., 100., 0., -3., 10.], n=n, level='data', quad=[1., -2., .5], seed=n, kind='mixed', form=form, times=times)
            for n, form, times in ((86_400, 'series', 1), (50_000, 'array', None))]


PARTS = [Part('day records', None, run, shards=2, exhaustive=days),
         Part('long records', long_cases(), run, quick=16, thorough=300, shards=4),
         Part('recovery', cases(), run, quick=1000, thorough=12000, shards=8)] + also.parts(PROPERTY)
