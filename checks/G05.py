"""Gaps in the cross-coupling data."""
import numpy as np
from hypothesis import strategies as st

from vh import also, refs, strat as S
from vh.core import Part, call, need

PROPERTY = 'G05'
RULE = ('A case is a list of segment lengths (crowded around 1000), the gaps between them and a sample rate; the oracle is the '
        'concatenation of the reference processing of each segment of at least 1000 samples, the same from the code run on each '
        'segment alone, and the regression on that. Non-trivial: two gaps or more, or a short segment among long ones.')
NAMES = ['ve', 'vcc', 'al', 'ax', 'lev']


@st.composite
def cases(draw):
    dt = draw(st.sampled_from([1, 1, 1., .5, .25, 2, 10, 60]))
    lens = draw(st.lists(st.one_of(st.integers(998, 1002), st.integers(1000, 1500), st.sampled_from([1000, 999, 1001]), st.integers(1, 30), st.integers(500, 1000)), min_size=1, max_size=5))
    if max(lens) < 1000:
        lens[draw(st.integers(0, len(lens) - 1))] = draw(st.integers(1000, 1200))
    gaps = draw(st.lists(st.sampled_from([5.25, 5.5, 6, 6, 7, 10, 100, 3600, 86400]), min_size=len(lens) - 1, max_size=len(lens) - 1))
    small = draw(st.lists(st.tuples(st.integers(1, 3000), st.sampled_from([2, 3, 4, 5, 5, 1.5, 0, -1, -4, -20])).map(list), max_size=4))
    return dict(dt=dt, lens=lens, gaps=gaps, small=small, seed=draw(S.seeds), zero=draw(st.one_of(st.just([]), st.lists(st.tuples(st.integers(1, 5), st.integers(-1, 4)).map(list), max_size=3))), t0=draw(st.sampled_from([0., 1.5e9, 1.7e9])))


def run(c, ctx):
    from shipgrav.grav import calc_cross_coupling_coefficients as ccc
    rng = np.random.default_rng(c['seed'])
    n, dt = sum(c['lens']), c['dt']
    step = np.full(n - 1, float(dt))
    edges = np.cumsum(c['lens'])
    for i, k in c['small']:
        if i < n:
            step[i - 1] = k * dt  # not a gap
    for e, g in zip(edges[:-1], c['gaps']):
        step[e - 1] = g * dt
    times = c['t0'] + np.concatenate([[0.], np.cumsum(step)])
    base = np.repeat(np.arange(len(c['lens'])) * 50., c['lens'])  # every segment at its own level: mixing would show
    data = [rng.normal(size=n) + base * rng.normal() for _ in range(6)]
    ends = [0] + list(edges)
    for j, k in c['zero']:  # a monitor that is not connected, all along or in one segment
        data[j][slice(*(ends[k % len(edges)], ends[k % len(edges) + 1]) if k >= 0 else (0, n))] = 0.
    faa, vcc, ve, al, ax, lev = data
    df, model = call(ccc, faa, vcc, ve, al, ax, lev, times=times, samplerate=dt)
    keep = [(a, b) for a, b in zip(ends, ends[1:]) if b - a >= 1000]
    cols = dict(ve=ve, vcc=vcc, al=al, ax=ax, lev=lev, g=-faa)
    need(sorted(df.columns) == sorted(cols), 'columns are %s', list(df.columns))
    total = sum(b - a - 420 for a, b in keep)
    need(len(df) == total, 'segments of %s samples give %d rows, %d expected', c['lens'], len(df), total)
    for k, x in cols.items():
        want = np.concatenate([refs.ccp_process(x[a:b]) for a, b in keep])
        bad = np.flatnonzero(~(np.abs(df[k].values - want) <= 1e-11 * (1 + np.abs(x).max())))
        need(len(bad) == 0, 'segments %s: column %s differs from the separately processed segments at rows %s of %d', c['lens'], k, bad[[0, -1]] if len(bad) else '', total)
    X = np.column_stack([df[k] for k in NAMES] + [np.ones(total)])
    live = np.abs(X).max(axis=0) > 0
    sc = np.where(live, np.abs(X).max(axis=0), 1.)
    sol = np.linalg.lstsq(X / sc, df['g'].values, rcond=None)[0] / sc
    cond = np.linalg.cond((X / sc)[:, live])
    for k, w in zip(NAMES + ['const'], sol):
        need(abs(model.params[k] - w) <= 1e-9 * cond * max(1, abs(w), np.abs(sol[:5]).max()), 'parameter %s is %r, the regression of the table gives %r', k, model.params[k], w)
    if len(keep) > 1:
        each = [call(ccc, *(x[a:b] for x in data))[0] for a, b in keep]
        for k in cols:
            need(np.array_equal(np.concatenate([e[k].values for e in each]), df[k].values) or np.allclose(np.concatenate([e[k].values for e in each]), df[k].values, atol=1e-12, rtol=1e-12),
                 'column %s is not the concatenation of the segments processed one by one', k)
    ctx.label('%d segments' % len(c['lens']), 'short ones' if len(keep) < len(c['lens']) else 'all long')
    ctx.nontrivial(len(c['lens']) > 2 or (len(keep) < len(c['lens']) and len(keep) > 0))


@st.composite
def whole(draw):
    return dict(n=draw(st.one_of(st.integers(1000, 1001), st.integers(1000, 2500))), times=draw(st.sampled_from(['none', 'even', 'slow', 'default rate'])), seed=draw(S.seeds))


def one(c, ctx):
    from shipgrav.grav import calc_cross_coupling_coefficients as ccc
    rng = np.random.default_rng(c['seed'])
    data = [rng.normal(size=c['n']) for _ in range(6)]
    kw = dict(none={}, even=dict(times=np.arange(c['n']) * 1., samplerate=1), slow=dict(times=np.arange(c['n']) * 30., samplerate=30),
              **{'default rate': dict(times=1.6e9 + np.arange(c['n']) * 5.)})[c['times']]
    df, _ = call(ccc, *data, **kw)
    need(len(df) == c['n'] - 420, '%d samples without gaps give %d rows', c['n'], len(df))
    for k, x in zip(['g', 'vcc', 've', 'al', 'ax', 'lev'], [-data[0]] + data[1:]):
        need(np.allclose(df[k].values, refs.ccp_process(x), atol=1e-11, rtol=1e-9), 'column %s of one continuous series is wrong', k)
    ctx.nontrivial()


@st.composite
def long_cases(draw):
    c = draw(cases())
    lens = [int(v) for v in np.random.default_rng(c['seed'] ^ 77).choice([999, 1000, 1001, 1300, 4000, 20, 700], draw(st.integers(6, 16)))] + [1000]
    return dict(c, lens=lens, gaps=[[6, 5.5, 100, 3600][k % 4] for k in range(len(lens) - 1)], small=[])


def days():
    return [dict(n=86_400, times='even', seed=1), dict(n=70_001, times='none', seed=2)]


PARTS = [Part('day records', None, one, shards=2, exhaustive=days),
         Part('many segments', long_cases(), run, quick=16, thorough=300, shards=4),
         Part('gap patterns', cases(), run, quick=1000, thorough=12000, shards=8),
         Part('no gaps', whole(), one, quick=40, thorough=800, shards=2)] + also.parts(PROPERTY)
