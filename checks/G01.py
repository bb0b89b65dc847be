"""Earth tide."""
from datetime import timedelta, timezone

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import also, refs, strat as S
from vh.core import Part, call, need, refuses

PROPERTY = 'G01'
RULE = ('A case is a series of positions, altitudes and UTC instants written in some time zones; the oracle evaluates Longman by '
        'rotating unit vectors of moon, sun and place (to 1e-6 mGal), and independently the Almanac positions of sun and moon (to a '
        'few percent). Non-trivial: at least two samples with different places and instants.')
lon_s = st.one_of(S.dec(-180, 360, 4), st.sampled_from([0., 180., -180., 360.]))
lat_s = st.one_of(S.dec(-90, 90, 4), st.sampled_from([0., 90., -90., 45.]))


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(9, 40)))
    step = draw(st.sampled_from([1_000_000, 1_000_000, 1]))
    us = st.one_of(S.instants(step=step, lo=-40000, hi=47482), S.instants(step=step))
    return dict(t=draw(st.lists(us, min_size=n, max_size=n)), lon=draw(st.lists(lon_s, min_size=n, max_size=n)), lat=draw(st.lists(lat_s, min_size=n, max_size=n)),
                alt=draw(st.one_of(st.none(), S.dec(-100, 10000, 1), st.lists(S.dec(-100, 10000, 1), min_size=n, max_size=n))),
                tz=draw(st.lists(st.integers(-48, 56), min_size=n, max_size=n)), kind=draw(st.sampled_from(['datetime', 'timestamp', 'series', 'index'])),
                order=draw(st.permutations(list(range(n)))))


def stamps(ts, tz, kind):
    out = [refs.when(t).astimezone(timezone(timedelta(minutes=15 * z))) for t, z in zip(ts, tz)]
    if kind in ('series', 'index'):
        u = pd.DatetimeIndex([pd.Timestamp(x).tz_convert('UTC') for x in out]).tz_convert(timezone(timedelta(minutes=15 * tz[0])))
        return pd.Series(u) if kind == 'series' else u
    return [pd.Timestamp(x) for x in out] if kind == 'timestamp' else out


def run(c, ctx):
    from shipgrav.grav import longman_tide_prediction as tide
    n = len(c['t'])
    lon, lat = np.array(c['lon']), np.array(c['lat'])
    alt = np.zeros(n) if c['alt'] is None else np.zeros(n) + np.array(c['alt'])
    kw = {} if c['alt'] is None else dict(alt=c['alt'] if not isinstance(c['alt'], list) else np.array(c['alt']))
    g0 = np.asarray(call(tide, lon, lat, stamps(c['t'], c['tz'], c['kind']), **kw), float)
    res = call(tide, lon, lat, stamps(c['t'], c['tz'], c['kind']), return_components=True, **kw)
    need(isinstance(res, tuple) and len(res) == 3, 'with components the result is %s', type(res))
    tot, gm, gs = [np.asarray(r, float) for r in res]
    need(g0.shape == tot.shape == gm.shape == gs.shape == (n,), 'shapes %s %s %s %s for %d samples', g0.shape, tot.shape, gm.shape, gs.shape, n)
    need(np.allclose(g0, tot, atol=1e-12, rtol=0), 'the total depends on return_components')
    need(np.allclose(gm + gs, tot, atol=1e-12, rtol=0), 'components %s + %s do not sum to %s', gm, gs, tot)
    for i in range(n):
        m, s = refs.tide(lon[i], lat[i], c['t'][i] / 1e6, alt[i])
        # (the series has the resolution of whole seconds: half a microgal per 10 s)
        tol = 1e-7 if c['t'][i] % 1_000_000 == 0 else 1e-4
        need(abs(gm[i] - m) <= tol, 'lunar tide at %s, lon %s lat %s alt %s is %.8f, Longman gives %.8f', refs.when(c['t'][i]), lon[i], lat[i], alt[i], gm[i], m)
        need(abs(gs[i] - s) <= tol, 'solar tide at %s, lon %s lat %s alt %s is %.8f, Longman gives %.8f', refs.when(c['t'][i]), lon[i], lat[i], alt[i], gs[i], s)
        am, as_ = refs.tide_meeus(lon[i], lat[i], c['t'][i] / 1e6, alt[i])
        need(abs(gm[i] - am) < 6e-3 and abs(gs[i] - as_) < 1.5e-3, 'tide at %s, lon %s lat %s is %.5f %.5f, from the Almanac %.5f %.5f', refs.when(c['t'][i]), lon[i],
             lat[i], gm[i], gs[i], am, as_)
    utc = np.asarray(call(tide, lon, lat, stamps(c['t'], [0] * n, 'datetime'), **kw), float)
    need(np.allclose(utc, g0, atol=1e-10, rtol=0), 'the tide depends on the time zone of the stamps: %s, in UTC %s', g0, utc)
    turn = np.asarray(call(tide, lon + 360., lat, stamps(c['t'], c['tz'], c['kind']), **kw), float)
    need(np.allclose(turn, g0, atol=1e-9, rtol=0), 'longitude + 360 changes the tide from %s to %s', g0, turn)
    p = np.array(c['order'])
    kwp = {k: v[p] if isinstance(v, np.ndarray) else v for k, v in kw.items()}
    perm = np.asarray(call(tide, lon[p], lat[p], stamps([c['t'][i] for i in p], [c['tz'][i] for i in p], c['kind']), **kwp), float)
    need(np.allclose(perm, g0[p], atol=1e-10, rtol=0), 'reordering the samples changes their tides')
    ctx.label(c['kind'], 'years<1970' if min(c['t']) < 0 else 'years>=1970')
    ctx.nontrivial(n > 1 and len(set(c['t'])) > 1 and len(set(c['lat'])) > 1)


@st.composite
def bad(draw):
    a = draw(st.lists(st.integers(0, 6), min_size=3, max_size=3).filter(lambda v: len(set(v)) > 1))
    return dict(n=a)


def refuse(c, ctx):
    from shipgrav.grav import longman_tide_prediction as tide
    a, b, t = c['n']
    refuses(tide, AssertionError, np.linspace(0, 9., a), np.linspace(0, 9., b), [refs.when(10 ** 15 + 10 ** 9 * i) for i in range(t)])
    ctx.nontrivial(min(a, b, t) > 0)


@st.composite
def long_cases(draw):
    return dict(seed=draw(S.seeds), n=draw(st.sampled_from([366, 1100, 2500, 7000])), step=draw(st.sampled_from([1, 60, 600, 3600, 3600, 86400])), t=draw(S.instants(step=1_000_000)), kind=draw(st.sampled_from(['datetime', 'timestamp', 'series', 'index'])),
                tz=draw(st.integers(-48, 56)), alt=draw(st.sampled_from([None, 0., 5., 'array'])))


def long_run(c, ctx):
    """A long record along a track: every sample is the tide of its own instant and place."""
    from shipgrav.grav import longman_tide_prediction as tide
    rng = np.random.default_rng(c['seed'])
    n = c['n']
    t = [c['t'] + i * c['step'] * 1_000_000 for i in range(n)]
    lon = rng.uniform(-180, 180) + np.cumsum(rng.normal(size=n)) * .01
    lat = np.clip(rng.uniform(-80, 80) + np.cumsum(rng.normal(size=n)) * .01, -90, 90)
    alt = rng.uniform(-50, 5000, n) if c['alt'] == 'array' else np.full(n, c['alt'] or 0.)
    kw = {} if c['alt'] is None else dict(alt=alt if c['alt'] == 'array' else c['alt'])
    tot, gm, gs = [np.asarray(r, float) for r in call(tide, lon.copy(), lat.copy(), stamps(t, [c['tz']] * n, c['kind']), return_components=True, **kw)]
    want = np.array([refs.tide(lon[i], lat[i], t[i] / 1e6, alt[i]) for i in range(n)])
    need(tot.shape == gm.shape == gs.shape == (n,), 'shapes %s %s %s for %d samples', tot.shape, gm.shape, gs.shape, n)
    for name, got, w in (('lunar', gm, want[:, 0]), ('solar', gs, want[:, 1]), ('total', tot, want.sum(axis=1))):
        d = np.abs(got - w)
        i = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
        need(d[i] <= 2e-7, '%s tide of sample %d of %d (%s, lon %s lat %s alt %s) is %.8f, Longman gives %.8f', name, i, n, refs.when(t[i]), lon[i], lat[i], alt[i], got[i], w[i])
    ctx.label(c['kind'])
    ctx.nontrivial()


def days():
    return [dict(seed=3, n=86_401, step=1, t=1_700_000_000_000_000, kind='timestamp', tz=-28, alt=None), dict(seed=4, n=20_000, step=30, t=1_703_900_000_000_000, kind='index', tz=8, alt=5.)]


PARTS = [Part('day of seconds', None, long_run, shards=2, exhaustive=days),
         Part('long records', long_cases(), long_run, quick=16, thorough=600, shards=4),
         Part('series', cases(), run, quick=2500, thorough=20000, shards=8),
         Part('unequal lengths', bad(), refuse, quick=60, thorough=500, shards=1)] + also.parts(PROPERTY)
