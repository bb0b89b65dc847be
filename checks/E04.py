"""A synthetic cruise with cross-coupling, from raw files to the cleaned anomaly."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import interp1d

from checks.E01 import position
from vh import formats as F, refs, strat as S
from vh.core import Part, call, need

PROPERTY = 'E04'
RULE = ('A case is a ship, track, four monitors with their spectra and the coefficients with which they leak into the meter; nav and '
        'meter files are written from the forward model, processed as in the cross-coupling example, and the coefficients, the cleaned '
        'anomaly and the platform vectors are compared with what was planted. Non-trivial: two coefficients or more, and a moving ship.')
MON = ('ve', 'vcc', 'al', 'ax')


@st.composite
def cases(draw):
    coef = st.one_of(S.dec(-2, 2, 2), st.sampled_from([0., 1., -1.]))
    return dict(ship=draw(st.sampled_from(['Atlantis', 'Thompson', 'Revelle', 'Langseth', 'Ride', 'Sikuliaq', 'NBP'])), t=draw(S.instants(step=1_000_000)), n=draw(st.integers(1002, 1500)), lat=draw(S.dec(-60, 60, 3)),
                lon=draw(st.one_of(S.dec(-178, 178, 3), st.sampled_from([179.9999, -179.9999, 0.]))), v=draw(S.dec(0, 8, 1)), course=draw(S.dec(0, 360, 0)), turn=draw(st.sampled_from([0., 1e-4, -1e-4, 1e-3])), coef=draw(st.lists(coef, min_size=4, max_size=4)),
                amp=draw(st.lists(st.sampled_from([10., 30., 60.]), min_size=4, max_size=4)), quad=draw(st.lists(S.dec(-20, 20, 1), min_size=3, max_size=3)), bias=draw(S.dec(968000, 970000, 2)), seed=draw(S.seeds), shuffle=draw(st.booleans()),
                split=draw(st.integers(1, 1000)), level=draw(st.sampled_from(['zero', 'tilt'])), per=draw(st.sampled_from([240, 240., 120., 300])), damp=draw(st.sampled_from([.7071, .5, 0])), freq=draw(st.booleans()))


def run(c, ctx):
    import shipgrav.grav as sgg
    import shipgrav.io as sgi
    import shipgrav.nav as sgn
    n, ship = c['n'], c['ship']
    rng = np.random.default_rng(c['seed'])
    fixes = []
    for k in range(-2, n + 3):
        lat, lon = position(c, float(k))
        fixes.append(dict(t=c['t'] + k * 1_000_000, lat=int(round(lat * F.DEG)), lon=int(round(((lon + 180) % 360 - 180) * F.DEG)), digits=2))
    s = np.arange(n) * 1.
    us = [c['t'] + k * 1_000_000 for k in range(n)]
    lat, lon = position(c, s)
    planted = c['quad'][0] + c['quad'][1] * s / n + c['quad'][2] * (s / n) ** 2
    mon = {}
    for m, a in zip(MON, c['amp']):
        w = sum(rng.normal() * np.sin(2 * np.pi * s / rng.uniform(150, 500) + rng.uniform(0, 6.28)) for _ in range(5))
        mon[m] = a * (w + .05 * rng.normal(size=n))
    tide = np.array([sum(refs.tide(x, y, t / 1e6, 0.)) for x, y, t in zip(lon, lat, us)])
    plat, plon = position(c, np.arange(-1, n + 1) * 1.)
    eot = refs.eotvos(plat, plon, np.zeros(n + 2), 1.)[1:-1]
    meter = planted + refs.normal_gravity(lat) - eot - tide - c['bias'] - sum(k * mon[m] for k, m in zip(c['coef'], MON))
    lines = []
    for i, t in enumerate(us):
        rec = {f: .5 for f in F.LAPTOP}
        rec.update(rgrav=meter[i], qc=meter[i] + 77., status=330, checksum=99, numline=i, lat=0., lon=0., **{m: mon[m][i] for m in MON})
        lines.append(F.laptop_line(ship, rec, t, t))
    k = c['split']
    paths = [ctx.write('meter_%s.txt' % a, F.laptop_file(ship, p)) for a, p in (('a', lines[:k]), ('b', lines[k:]))]
    navs = [ctx.write('nav_a.txt', F.nav_file(ship, fixes[:k])), ctx.write('nav_b.txt', F.nav_file(ship, fixes[k:]))]
    if c['shuffle']:
        paths, navs = paths[::-1], navs[::-1]

    nav = call(sgi.read_nav, ship, navs, progressbar=False)
    nav = nav.sort_values('time_sec').reset_index(drop=True)
    df = call(sgi.read_dgs_laptop, paths, ship, progressbar=False)
    need(len(nav) == len(fixes) and len(df) == n, 'read %d fixes of %d and %d records of %d', len(nav), len(fixes), len(df), n)
    df = df.sort_values('date_time').reset_index(drop=True)
    tsec = np.array([e.timestamp() for e in df['date_time']])
    x = interp1d(nav['time_sec'].values, nav['lon'].values, fill_value='extrapolate')(tsec)
    y = interp1d(nav['time_sec'].values, nav['lat'].values, fill_value='extrapolate')(tsec)
    ht = np.zeros(n)
    df['lat_new'], df['lon_new'] = y, x
    lat_corr = call(sgg.wgs_grav, df['lat_new']) + call(sgg.free_air_second_order, df['lat_new'], ht)
    eotvos = call(sgg.eotvos_full, df['lon_new'].values, df['lat_new'].values, ht, 1)
    tides = call(sgg.longman_tide_prediction, df['lon_new'], df['lat_new'], df['date_time'])
    df['faa'] = df['rgrav'] + c['bias'] - lat_corr + eotvos + tides

    kw = dict(freq=1.) if c['freq'] else {}
    vn, ve = call(sgn.latlon_to_EN, df['lon_new'].values, df['lat_new'].values, **kw)
    eacc, nacc = 1e5 * np.convolve(ve, sgn.tay10, 'same'), 1e5 * np.convolve(vn, sgn.tay10, 'same')
    crse, vel = call(sgn.ENvel_to_course_heading, ve, vn)
    th = np.radians(c['course']) + c['turn'] * s
    mid = slice(20, n - 20)
    if c['v'] > .5:
        # (0.02 m/s: fixes are written to 2 mm)
        need(np.abs(vel[mid] - c['v']).max() < .02 * max(1, c['v']), 'speed is %s, the ship makes %s', vel[mid][[0, -1]], c['v'])
        dh = np.abs((np.degrees(th)[mid] - crse[mid] + 180) % 360 - 180) * c['v']
        need(dh.max() < 2. + c['v'] * .2, 'course is %s, the ship steers %s', crse[mid][[0, -1]], np.degrees(th)[mid][[0, -1]])
    crse[np.isnan(crse)] = 0
    acc_cross, acc_long = call(sgn.rotate_acceleration_EN_to_cl, crse, eacc, nacc)
    up = call(sgg.up_vecs, 1., lat_corr, acc_cross, acc_long, 0, c['per'], c['damp'], c['per'], c['damp'])
    need(up.shape == (3, n) and np.allclose((up ** 2).sum(axis=0), 1, atol=1e-12), 'up-vectors have shape %s, lengths %s', up.shape, np.sqrt((up ** 2).sum(axis=0)))
    if c['v'] > .5:
        # the ship's own acceleration: none along the track, v times the rate of turn to starboard, and the tilt that it gives
        want = 1e5 * c['v'] * c['turn']
        got = [acc_cross[mid].mean(), acc_long[mid].mean()]
        need(abs(got[0] - want) < 5 + .02 * abs(want), 'cross acceleration is %.1f mGal on the average, the ship turns with %.1f', got[0], want)
        need(abs(got[1]) < 5 + .02 * abs(want), 'long acceleration is %.1f mGal on the average, the ship keeps its speed', got[1])
        end = slice(2 * n // 3, n - 20)
        lean = up[:, end].mean(axis=1)
        ratio = (9.8 / 6371100.) / (2 * np.pi / c['per']) ** 2
        want = want / lat_corr.mean() * (1 - ratio)
        need(abs(lean[0] - want) < 3e-6 + .03 * abs(want), 'the platform leans %.2e to starboard, the turn makes it lean %.2e', lean[0], want)
        need(abs(lean[1]) < 3e-6 + .03 * abs(want), 'the platform leans %.2e to the bow at constant speed', lean[1])
    level = lat_corr - lat_corr * up[2] - np.nan_to_num(acc_long) * up[0] + np.nan_to_num(acc_cross) * up[1]
    lev = level.values if c['level'] == 'tilt' else np.zeros(n)

    keep = slice(2, n)
    d = df.iloc[keep]
    _, model = call(sgg.calc_cross_coupling_coefficients, d['faa'].values, d['vcc'].values, d['ve'].values, d['al'].values, d['ax'].values, lev[keep])
    # 0.01 mGal of noise or so, from the rounding of the fixes
    for want, m, a in zip(c['coef'], MON, c['amp']):
        need(abs(float(model.params[m]) - want) <= .1 / a, 'coefficient of %s is %.4f, planted %.4f', m, model.params[m], want)
    clean = d['faa'].values + sum(float(model.params[m]) * d[m].values for m in MON)
    e = np.abs(clean - planted[keep])[1:-1]
    need(e.max() < .5, 'sample %d of %d: the cleaned anomaly is %.3f mGal, planted %.3f', e.argmax() + 3, n, clean[1:-1][e.argmax()], planted[keep][1:-1][e.argmax()])
    exact = d['faa'].values + sum(k * d[m].values for k, m in zip(c['coef'], MON))
    e = np.abs(exact - planted[keep])[1:-1]
    need(e.max() < .15, 'sample %d of %d: the anomaly without the leaked monitors is %.3f mGal, planted %.3f', e.argmax() + 3, n, exact[1:-1][e.argmax()], planted[keep][1:-1][e.argmax()])
    ctx.label(ship, c['level'])
    ctx.nontrivial(c['v'] > 1 and sum(k != 0 for k in c['coef']) > 1)


PARTS = [Part('cruises', cases(), run, quick=150, thorough=2000, shards=8)]
