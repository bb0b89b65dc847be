"""Dateline crossings."""
import numpy as np
from hypothesis import strategies as st

from vh import formats as F, strat as S
from vh.core import Part, call, need

PROPERTY = 'N03'
RULE = ('A case is a ship and a track made of dense legs (steps below one degree, any direction) with optional gaps between '
        'legs and blank fixes, recorded with longitudes wrapped to +/-180 in one to three files; the oracle is the unwrapped '
        'truth. Non-trivial: the track crosses the dateline, or has a gap of more than a degree.')


@st.composite
def track(draw, near, gaps):
    ship = draw(st.sampled_from(F.NAV_SHIPS))
    lon = near * F.DEG + draw(st.integers(-3 * F.DEG, 3 * F.DEG))
    lat = draw(st.integers(-75 * F.DEG, 75 * F.DEG))
    nlegs = draw(st.integers(2, 5)) if gaps else 1
    pts, lone, before = [], False, 0
    for leg in range(nlegs):
        if leg:
            jump = draw(st.sampled_from([-1, 1])) * draw(st.integers(int(1.2 * F.DEG), 15 * F.DEG))
            if lone and abs(lon + jump - before) < 1.1 * F.DEG:
                jump = -jump  # one fix out and back is taken for a bad one
            before, lon = lon, lon + jump
            lat += draw(st.sampled_from([-1, 1])) * draw(st.integers(0, F.DEG))
        n = draw(st.one_of(st.integers(2, 8), st.just(1))) if gaps else draw(st.integers(3, 24))
        lone = leg > 0 and n == 1
        turns = draw(st.integers(0, 3))
        step = draw(st.integers(-int(0.9 * F.DEG), int(0.9 * F.DEG)))
        for i in range(n):
            if i and turns and i % max(1, n // (turns + 1)) == 0:
                step = draw(st.integers(-int(0.9 * F.DEG), int(0.9 * F.DEG)))
            if i:
                lon += step
            pts.append([lon, lat, leg])
    blank = draw(st.sampled_from([0, 0, 3, 5])) if not gaps else 0
    return dict(ship=ship, t0=draw(S.instants(step=1_000_000)), pts=pts, blank_every=blank,
                blank_phase=draw(st.integers(0, 4)), files=draw(st.integers(1, 3)), west180=draw(st.booleans()))


def wrap(v, west180):
    w = (v + 180 * F.DEG) % (360 * F.DEG) - 180 * F.DEG
    return 180 * F.DEG if w == -180 * F.DEG and not west180 else w


def run(case, ctx, crossing):
    import shipgrav.io as sgi
    ship, pts = case['ship'], case['pts']
    fixes, truth = [], []
    for i, (lon, lat, leg) in enumerate(pts):
        blank = 1 if case['blank_every'] and i % case['blank_every'] == case['blank_phase'] else 0
        if crossing and case['blank_every'] == 5 and i and not blank:
            # blank fixes right at the crossing as well
            if (pts[i - 1][0] + 180 * F.DEG) // (360 * F.DEG) != (lon + 180 * F.DEG) // (360 * F.DEG) and abs(lon - pts[i - 1][0]) * 2 < 0.9 * F.DEG:
                blank = 1
        rec = wrap(lon, case['west180'])
        fixes.append(dict(t=case['t0'] + i * 10_000_000, lat=lat, lon=rec, digits=2, blank=blank))
        truth.append((lon / F.DEG, rec / F.DEG, lat / F.DEG, leg, blank))
    nf = min(case['files'], len(fixes))
    cuts = [len(fixes) * k // nf for k in range(nf + 1)]
    paths = ctx.files('nav', [F.nav_file(ship, fixes[cuts[k]:cuts[k + 1]]) for k in range(nf)])
    nav = call(sgi.read_nav, ship, paths, progressbar=False)
    need(not isinstance(nav, int) and len(nav) == len(fixes), '%s: %d fixes became %s rows', ship, len(fixes),
         nav if isinstance(nav, int) else len(nav))
    lon, lat, ts = (np.asarray(nav[c], float) for c in ('lon', 'lat', 'time_sec'))
    prev = None
    recs = [t[1] for t in truth if not t[4]]
    jumps = np.any(np.abs(np.diff(recs)) > 180)
    east, west = sum(v > 0 for v in recs), sum(v < 0 for v in recs)
    keeps = np.sign(east - west) if jumps else 0
    for i, (un, rec, la, leg, blank) in enumerate(truth):
        need(abs(ts[i] - fixes[i]['t'] / 1e6) < 1e-5, 'row %d: time %r altered', i, ts[i])
        if blank:
            need(np.isnan(lon[i]) and np.isnan(lat[i]), 'row %d: blank fix came back as %r, %r', i, lon[i], lat[i])
            continue
        need(abs(lat[i] - la) < 1e-8, 'row %d: latitude %r instead of %r', i, lat[i], la)
        need(abs((lon[i] - rec + 180) % 360 - 180) < 1e-7, 'row %d: longitude %r is not the recorded %r', i, lon[i], rec)
        if not jumps:
            need(abs(lon[i] - rec) < 1e-8, 'row %d: longitude %r altered to %r on a track that does not cross', i, rec, lon[i])
        if keeps and rec * keeps > 0:
            need(abs(lon[i] - rec) < 1e-8, 'row %d: longitude %r altered to %r although most fixes are on this side', i, rec, lon[i])
        if prev is not None and (abs(un - prev[0]) < 1 and (leg == prev[2])):
            need(abs((lon[i] - prev[1]) - (un - prev[0])) < 1e-7,
                 'row %d: longitude jumps from %r to %r, the ship moved %r', i, prev[1], lon[i], un - prev[0])
        prev = (un, lon[i], leg)
    gaps = len({t[3] for t in truth}) > 1
    ctx.label('crosses' if jumps else 'no crossing', 'gaps' if gaps else 'dense', 'files=%d' % nf)
    ctx.nontrivial(jumps or gaps)


def crossing(case, ctx):
    run(case, ctx, True)


def gaps(case, ctx):
    run(case, ctx, False)


def long_track(case, ctx):
    """Days of sailing to and fro over the dateline."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    step = int(rng.integers(1, int(.5 * F.DEG)))
    lon = 180 * F.DEG + int(rng.integers(-2 * F.DEG, 2 * F.DEG)) + np.cumsum(rng.integers(-step, step + 1, n) + step // 3 * np.sign(np.sin(np.arange(n) * rng.uniform(.005, .1))).astype(int))
    if case['seed'] % 4 == 1:  # holding station on the dateline
        lon = 180 * F.DEG + rng.integers(-int(.45 * F.DEG), int(.45 * F.DEG), n)
    lat = int(rng.integers(-60, 60)) * F.DEG + np.cumsum(rng.integers(-1000, 1000, n))
    run(dict(case, pts=[[int(a), int(b), 0] for a, b in zip(lon, lat)], west180=bool(case['seed'] & 1), blank_phase=case['seed'] % 3), ctx, True)


def ocean(case, ctx):
    """A crossing of an ocean: far beyond the dateline, at its own pace on either side, perhaps with a stop at one end, perhaps there and back."""
    rng = np.random.default_rng(case['seed'])
    total = case['total']
    legs = []
    for share, pace in zip((case['before'], 1 - case['before']), case['pace']):
        k = int(share * total / (.68 * pace)) + 1
        legs.append(rng.uniform(.4, .95, k) * pace)
    lon = -legs[0].sum() + np.cumsum(np.concatenate(legs))
    dwell = rng.uniform(-.1, .1, case['dwell'])
    lon = np.concatenate([lon[:1] + dwell, lon] if case['seed'] & 2 else [lon, lon[-1:] + dwell])
    if case['back']:
        lon = np.concatenate([lon, lon[::-1] + .013])
    lon = case['side'] * 180 * F.DEG + (case['side'] * lon * F.DEG).astype(int)
    lat = int(rng.integers(-60, 60)) * F.DEG + np.cumsum(rng.integers(-10000, 10000, len(lon)))
    run(dict(case, pts=[[int(a), int(b), 0] for a, b in zip(lon, lat)], west180=bool(case['seed'] & 1), blank_phase=case['seed'] % 3), ctx, True)


PARTS = [Part('oceans', st.fixed_dictionaries(dict(seed=S.seeds, ship=st.sampled_from(F.NAV_SHIPS), total=st.sampled_from([15, 60, 120, 165, 165]), before=st.sampled_from([0, .1, .3, .4, .45, .52, .55, .6, .7, .9]),
                                                    pace=st.lists(st.sampled_from([1, 1, .5, .25]), min_size=2, max_size=2), dwell=st.sampled_from([0, 0, 100, 300]), back=st.booleans(), side=st.sampled_from([1, -1]),
                                                    t0=S.instants(step=1_000_000), blank_every=st.sampled_from([0, 0, 7]), files=st.sampled_from([1, 3, 12]))), ocean, quick=60, thorough=1500, shards=4),
                  Part('long tracks', st.fixed_dictionaries(dict(seed=S.seeds, ship=st.sampled_from(F.NAV_SHIPS), n=st.sampled_from([200, 1000, 3000]), t0=S.instants(step=1_000_000),
                                                         blank_every=st.sampled_from([0, 0, 7]), files=st.sampled_from([1, 3, 12]))), long_track, quick=16, thorough=600, shards=4),
         Part('dense crossings', track(180, False), crossing, quick=500, thorough=15000, shards=4),
         Part('gaps near the dateline', track(180, True), gaps, quick=250, thorough=8000, shards=2),
         Part('gaps elsewhere', st.sampled_from([0, 0, 45, -60, 120]).flatmap(lambda c: track(c, True)), gaps, quick=300, thorough=8000, shards=2),
         Part('dense elsewhere', st.sampled_from([0, 30, -90]).flatmap(lambda c: track(c, False)), gaps, quick=150, thorough=4000, shards=1)]
