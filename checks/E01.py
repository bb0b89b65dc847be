"""A synthetic cruise, from raw files to the free-air anomaly."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import interp1d

from vh import formats as F, refs, strat as S
from vh.core import Part, call, need

PROPERTY = 'E01'
RULE = ('A case is a ship, meter, start, track, planted anomaly and bias; nav and meter files are written from an independent forward '
        'model (tide, inertial acceleration, normal gravity), read and corrected as in the example scripts, and the anomaly that '
        'comes out is compared sample by sample. Non-trivial: the ship moves and the anomaly varies.')
R = 6.371e6


@st.composite
def cases(draw):
    meter = draw(st.sampled_from(['bgm', 'dgs', 'dgs']))
    ship = draw(st.sampled_from(['Atlantis', 'Thompson', 'Revelle', 'Langseth'] if meter == 'bgm' else ['Atlantis', 'Thompson', 'Revelle', 'Langseth', 'Ride', 'Sikuliaq', 'NBP']))
    return dict(meter=meter, ship=ship, t=draw(S.instants(step=1_000_000)), n=draw(st.integers(30, 90)), lat=draw(S.dec(-70, 70, 3)), lon=draw(st.one_of(S.dec(-179, 179, 3), st.sampled_from([179.9999, -179.9999, 0.]))),
                v=draw(S.dec(0, 8, 1)), course=draw(S.dec(0, 360, 0)), turn=draw(st.sampled_from([0., 0., 1e-3, -1e-3])), amp=draw(S.dec(-80, 80, 1)), wave=draw(st.integers(10, 60)), bias=draw(S.dec(840000, 860000, 2)),
                off=draw(st.sampled_from([0, 0, 200_000, 500_000])), shuffle=draw(st.booleans()), split=draw(st.integers(1, 28)), phase=draw(st.sampled_from([0, 0, 250_000, 600_000])) if ship != 'Thompson' else 0,
                lag=draw(st.sampled_from([0, 0, 300_000, -300_000, 2_000_000])), overlap=draw(st.sampled_from([0, 0, 3, 10])), final=draw(st.booleans()), words=draw(st.lists(st.one_of(st.sampled_from([0, 330, 65535]), st.integers(0, 65535)), min_size=3, max_size=3)))


def position(c, s):
    th = np.radians(c['course']) + c['turn'] * s
    if c['turn']:
        e = c['v'] / c['turn'] * (np.cos(np.radians(c['course'])) - np.cos(th))
        n = c['v'] / c['turn'] * (np.sin(th) - np.sin(np.radians(c['course'])))
    else:
        e, n = c['v'] * np.sin(th) * s, c['v'] * np.cos(th) * s
    return c['lat'] + np.degrees(n / R), c['lon'] + np.degrees(e / R / np.cos(np.radians(c['lat'])))


def run(c, ctx):
    import shipgrav.grav as sgg
    import shipgrav.io as sgi
    n, ship = c['n'], c['ship']
    # navigation: two seconds more than the meter on both sides
    fixes = []
    for k in range(-2, n + 3):
        lat, lon = position(c, k + c['phase'] / 1e6)
        lon = (lon + 180) % 360 - 180
        fixes.append(dict(t=c['t'] + k * 1_000_000 + c['phase'], lag=c['lag'], lat=int(round(lat * F.DEG)), lon=int(round(lon * F.DEG)), digits=2))
    s = np.arange(n) + c['off'] / 1e6
    us = [c['t'] + int(k) * 1_000_000 + c['off'] for k in range(n)]
    lat, lon = position(c, s)
    planted = c['amp'] * np.sin(2 * np.pi * s / c['wave'])
    tide = np.array([sum(refs.tide(x, y, t / 1e6, 0.)) for x, y, t in zip(lon, lat, us)])
    pad = np.concatenate([[s[0] - 1], s, [s[-1] + 1]])
    plat, plon = position(c, pad)
    eot = refs.eotvos(plat, plon, np.zeros(n + 2), 1.)[1:-1]
    meter = planted + refs.normal_gravity(lat) - eot - tide - c['bias']
    lost = np.zeros(n)
    if c['meter'] == 'bgm':
        counts = np.round(meter / F.BGM_SCALE[ship]).astype(int)
        lost = counts * F.BGM_SCALE[ship] - meter  # known, because we wrote the file
        lines = [F.bgm_line(ship, t, k) for t, k in zip(us, counts)]
    else:
        lines, words = [], c['words']
        rest = [.5, 0., -1.25, float(words[0]), -.001 * words[1]]
        for i, t in enumerate(us):
            rec = {f: rest[i % 5] for f in F.LAPTOP}
            rec.update(rgrav=meter[i], qc=meter[i] + 77., status=words[i % 3], checksum=99, numline=i, lat=0., lon=0.)
            lines.append(F.laptop_line(ship, rec, t, t))
    k = c['split']
    paths = []
    for name, part in (('a', slice(0, k)), ('b', slice(k, None))):
        if c['meter'] == 'bgm':
            text = ''.join(x + '\n' for x in lines[part])
        else:
            text = F.laptop_file(ship, lines[part])
        paths.append(ctx.write('meter_%s.txt' % name, text))
    navs = [ctx.write('nav_a.txt', F.end(F.nav_file(ship, fixes[:k]), c['final'])), ctx.write('nav_b.txt', F.end(F.nav_file(ship, fixes[max(0, k - c['overlap']):]), c['final']))]
    if c['shuffle']:
        paths, navs = paths[::-1], navs[::-1]

    nav = call(sgi.read_nav, ship, navs, progressbar=False)
    if c['meter'] == 'bgm':
        df = call(sgi.read_bgm_raw, paths, ship, progressbar=False)
    else:
        df = call(sgi.read_dgs_laptop, paths, ship, progressbar=False)
    need(len(nav) == len(fixes) and len(df) == n, 'read %d fixes of %d and %d records of %d', len(nav), len(fixes), len(df), n)
    df = df.sort_values('date_time').reset_index(drop=True)
    tsec = np.array([e.timestamp() for e in df['date_time']])
    grav = df['rgrav'].values + c['bias']
    x = interp1d(nav['time_sec'].values, nav['lon'].values, fill_value='extrapolate')(tsec)
    y = interp1d(nav['time_sec'].values, nav['lat'].values, fill_value='extrapolate')(tsec)
    ht = np.zeros(n)
    corr = call(sgg.wgs_grav, y) + call(sgg.free_air_second_order, y, ht)
    faa = grav - corr + call(sgg.eotvos_full, x, y, ht, 1) + np.asarray(call(sgg.longman_tide_prediction, x, y, df['date_time']))
    i = slice(1, n - 1)  # the ends of the Eotvos correction repeat their neighbours
    d = np.abs(faa - planted - lost)[i]
    # positions are written to 2 mm: 2 mm/s in velocity, 7 mm/s2 in acceleration through the deviation of the normal
    tol = .15
    if ship == 'Thompson' and c['off']:
        pass  # the meter's stamp keeps its fraction, only the fixes drop theirs (theirs is zero here)
    need((d < tol).all(), 'ship %s, %s: sample %d has anomaly %.3f mGal, planted %.3f', ship, c['meter'], 1 + d.argmax(), (faa - lost)[1 + d.argmax()], planted[1 + d.argmax()])
    ctx.label(ship, c['meter'])
    ctx.nontrivial(c['v'] > 1 and abs(c['amp']) > 1)


@st.composite
def long_cases(draw):
    c = draw(cases())
    n = draw(st.sampled_from([600, 1500]))
    return dict(c, n=n, v=min(c['v'], 8.), split=draw(st.integers(1, n - 1)), lat=max(-60., min(60., c['lat'])))


PARTS = [Part('long cruises', long_cases(), run, quick=5, thorough=100, shards=4),
         Part('cruises', cases(), run, quick=640, thorough=12000, shards=8)]
