"""A cruise recorded by the serial port, the meter's laptop, the navigation and a motion sensor at once."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.interpolate import interp1d

from checks.E01 import position
from vh import formats as F, gravfiles as G, strat as S
from vh.core import Part, call, need

PROPERTY = 'E05'
RULE = ('A case is a ship, a meter (its ini file), a track and the physical histories of the channels; serial files (with dropouts), laptop files, '
        'nav files, a motion feed with its yaml and the ini file are written from them, and the serial counts are calibrated with the converted '
        'ini as in the example. The calibrated channels must be the physical ones, and all records of one second must agree. Non-trivial: '
        'a dropout, and a gain and an offset that are not trivial.')
FULL = 8388607  # 2**23 - 1, full scale of a 24-bit channel
CHANNELS = {  # serial column: gain and offset in the ini, full scale
    'Gravity': ('GravCal', 'g0', FULL), 'Long': ('LongCal', 'LongOffset', FULL), 'Cross': ('CrossCal', 'CrossOffset', FULL), 'Beam': ('beamgain', 'beamzero', FULL),
    'Temp': ('stempgain', 'stempoffset', 1), 'Pressure': ('pressgain', 'presszero', 1), 'ElecTemp': ('Etempgain', 'Etempzero', 1)}
MON = ('vcc', 've', 'al', 'ax')
AXES = {'Pitch': 5., 'Roll': 12., 'Heave': 2.}


@st.composite
def cases(draw):
    n = draw(st.integers(10, 60))
    ini = {}
    for gain, off, full in CHANNELS.values():
        ini[gain] = draw(st.one_of(S.dec(.5, 20, 4), S.dec(-20, -.5, 4), st.sampled_from([1., 8192.5, 25000.]))) if full > 1 else draw(st.one_of(S.dec(.001, 2, 4), S.dec(-2, -.001, 4)))
        ini[off] = draw(st.one_of(S.dec(-500, 500, 3), st.sampled_from([0., 9800.25, 850000.])))
    return dict(ship=draw(st.sampled_from(G.RAWSHIPS)), t=draw(S.instants(step=1_000_000)), n=n, lat=draw(S.dec(-70, 70, 3)), lon=draw(st.one_of(S.dec(-178, 178, 3), st.sampled_from([179.9999, -179.9999, 0.]))),
                v=draw(S.dec(0, 8, 1)), course=draw(S.dec(0, 360, 0)), turn=draw(st.sampled_from([0., 1e-3, -1e-3])), ini=ini, comments=draw(st.booleans()), style=draw(st.sampled_from(['{}', '{!r}', '{:.6f}', '{:e}'])),
                drop=draw(st.lists(st.integers(0, n - 1), max_size=n // 2, unique=True)), split=draw(st.integers(1, n - 1)), scale=draw(st.booleans()), seed=draw(S.seeds), shuffle=draw(st.booleans()),
                rate=draw(st.sampled_from([1, 2, 5])), lag=draw(st.integers(0, 900)), prefix=draw(st.booleans()), off=draw(st.sampled_from([0, 0, 250_000, 990_000])), navlag=draw(st.sampled_from([0, 0, -700_000, 2_000_000])), overlap=draw(st.sampled_from([0, 0, 3])),
                final=draw(st.booleans()), word=draw(st.sampled_from([330, 0, -1])), eol=draw(st.sampled_from(['\n', '\r\n'])))


def run(c, ctx):
    import shipgrav.grav as sgg
    import shipgrav.io as sgi
    import shipgrav.utils as sgu
    import tomllib
    n, ship, ini = c['n'], c['ship'], c['ini']
    rng = np.random.default_rng(c['seed'])
    us = [c['t'] + k * 1_000_000 for k in range(n)]
    counts = {ch: np.round(np.clip(np.cumsum(rng.normal(size=n)) * (3e5 if full > 1 else 40) + rng.normal() * (1e6 if full > 1 else 300), -FULL, FULL)).astype(int) for ch, (_, _, full) in CHANNELS.items()}
    true = {ch: counts[ch] * ini[g] / full + ini[o] for ch, (g, o, full) in CHANNELS.items()}
    mon = {m: rng.integers(-9_999_999, 9_999_999, n) for m in MON}

    # the meter's configuration
    lines = ['// AT1M configuration', '[Sensor]', 'SensorName=AT1M-25', 'g_cal_done = TRUE']
    for i, (k, v) in enumerate(ini.items()):
        lines.append('%s%s%s%s' % (k, ['=', ' = '][i % 2], c['style'].format(v), ' // factory value' if c['comments'] and i % 3 == 0 else ''))
    lines += ['[GPS]', 'talker=$GPGGA', 'GravCal=77']
    conf_path = call(sgu.clean_ini_to_toml, ctx.write('Meter.ini', c['eol'].join(lines) + c['eol']))
    with open(conf_path, 'rb') as f:
        conf = tomllib.load(f)

    # the two recordings of the meter; the serial line has dropouts
    there = np.array([k not in c['drop'] or k == c['split'] or k == 0 for k in range(n)])
    serial, laptop = [], []
    word = np.full(n, c['word']) if c['word'] >= 0 else rng.integers(0, 65536, n)
    for i, t in enumerate(us):
        rec = dict({ch: int(counts[ch][i]) for ch in CHANNELS}, status=int(word[i]), checksum=99, latitude=0., longitude=0., speed=0., course=0., clock=1234, num=i, **{m: int(mon[m][i]) for m in MON})
        serial.append(F.raw_line(ship, rec, t, t, True, c['prefix']))
        rec = {f: round(float(rng.normal()), 6) for f in F.LAPTOP}
        rec.update(rgrav=true['Gravity'][i], qc=true['Gravity'][i] + 77., long_a=true['Long'][i], crss_a=true['Cross'][i], status=int(word[i]), checksum=99, numline=i, **{m: mon[m][i] * 1e-5 for m in MON})
        laptop.append(F.laptop_line(ship, rec, t, t))
    k = c['split']
    serial = [[x for x, y in zip(serial[p], there[p]) if y] for p in (slice(0, k), slice(k, n))]
    rawp = ctx.files('ser', [F.end(F.raw_file(ship, p), c['final']) for p in serial])
    lapp = ctx.files('lap', [F.end(F.laptop_file(ship, p), c['final']) for p in (laptop[:k], laptop[k:])])
    fixes = []
    for j in range(-2, n + 3):
        off = 0 if ship == 'Thompson' else c['off']
        lat, lon = position(c, j + off / 1e6)
        fixes.append(dict(t=c['t'] + j * 1_000_000 + off, lag=c['navlag'], lat=int(round(lat * F.DEG)), lon=int(round(((lon + 180) % 360 - 180) * F.DEG)), digits=2))
    navp = ctx.files('nav', [F.end(F.nav_file(ship, p), c['final']) for p in (fixes[:k + c['overlap']], fixes[k:])])
    # the motion sensor, at its own rate
    yaml = ctx.write('mru.yaml', "IXBlue:\n  format:\n    PASHR: '$PASHR,{GPSTime:f},%s,T'\n    HEHDT: '$HEHDT,{Heading:f},T'\n  fields:\n%s" % (
        ','.join('{%s:g}' % a for a in AXES), ''.join("    %s:\n      units: 'degrees'\n" % a for a in AXES)))
    mt = [c['t'] - 1_000_000 + c['lag'] * 1000 + q * 1_000_000 // c['rate'] for q in range((n + 2) * c['rate'])]
    motion = {a: np.round(np.cumsum(rng.normal(size=len(mt))), 3) for a in AXES}
    lines = []
    for i, t in enumerate(mt):
        d = F.dt(t)
        lines.append('%sZ $HEHDT,%.2f,T*1A' % (d.strftime('%Y-%m-%dT%H:%M:%S.%f'), i))
        lines.append('%sZ $PASHR,%s,%s,T*%02X' % (d.strftime('%Y-%m-%dT%H:%M:%S.%f'), d.strftime('%H%M%S.%f')[:-3], ','.join('%.3f' % motion[a][i] for a in AXES), i % 256))
    h = 2 * (len(mt) // 2)
    feeds = [ctx.write('mru_%d.txt' % i, c['eol'].join(p) + c['eol']) for i, p in enumerate((lines[:h], lines[h:]))]
    if c['shuffle']:
        rawp, lapp, navp = rawp[::-1], lapp[::-1], navp[::-1]

    raw = call(sgi.read_dgs_raw, rawp, ship, progressbar=False, **({} if c['scale'] else dict(scale_ccp=False)))
    lap = call(sgi.read_dgs_laptop, lapp, ship, progressbar=False)
    nav = call(sgi.read_nav, ship, navp, progressbar=False)
    mru = pd.concat([call(sgi.read_other_stuff, yaml, p, 'PASHR')[0] for p in feeds], ignore_index=True)
    need(len(raw) == there.sum() and len(lap) == n and len(nav) == len(fixes) and len(mru) == len(mt), 'read %d serial records of %d, %d laptop records of %d, %d fixes of %d, %d motion records of %d',
         len(raw), there.sum(), len(lap), n, len(nav), len(fixes), len(mru), len(mt))
    raw, lap = [x.sort_values('date_time').reset_index(drop=True) for x in (raw, lap)]
    sec = {}
    for name, df, want in (('serial', raw, np.array(us)[there]), ('laptop', lap, np.array(us))):
        sec[name] = np.array([e.timestamp() for e in df['date_time']])
        need(np.abs(sec[name] - want / 1e6).max() < 2e-6, '%s record %d is dated %s', name, np.abs(sec[name] - want / 1e6).argmax(), df['date_time'][np.abs(sec[name] - want / 1e6).argmax()])

    # calibration
    cols = {n_: k_ for k_, n_ in F.RAW_SKQ.items()} if ship == 'Sikuliaq' else {ch: ch for ch in F.RAW}
    sensor = conf['Sensor']
    for ch, (gain, off, full) in CHANNELS.items():
        if ch not in cols:
            continue
        cal = raw[cols[ch]].values * sensor[gain] / full + sensor[off]
        want = true[ch][there]
        tol = 1e-9 * (1 + np.abs(want)) + (abs(want).max() * 1e-5 + 1e-5 if c['style'] in ('{:.6f}', '{:e}') else 0)
        bad = np.abs(cal - want) > tol
        need(not bad.any(), 'serial record %d: calibrated %s is %r, it was %r', bad.argmax(), ch, cal[bad.argmax()], want[bad.argmax()])
    at = np.searchsorted(sec['laptop'], sec['serial'] - .5)
    for m in MON:
        w = raw[cols[m]].values * (1. if c['scale'] else 1e-5)
        bad = np.abs(w - lap[m].values[at]) > 1e-9 * (1 + np.abs(w))
        need(not bad.any(), 'monitor %s at %s is %r in the serial file, %r in the laptop file', m, raw['date_time'][bad.argmax()], w[bad.argmax()], lap[m].values[at][bad.argmax()])
    if 'status' in lap and 'status' in raw:
        need((lap['status'].values == word).all() and (raw['status'].values == word[there]).all(), 'status words differ from those recorded')
    need(np.abs(lap['rgrav'].values - true['Gravity']).max() < 1e-6, 'laptop gravity differs')

    # positions and corrections
    posn = {}
    for name in sec:
        posn[name] = [interp1d(nav['time_sec'].values, nav[q].values, fill_value='extrapolate')(sec[name]) for q in ('lon', 'lat')]
    lat, lon = position(c, np.arange(n) * 1.)
    dl = np.abs((posn['laptop'][0] - lon + 180) % 360 - 180)
    need(dl.max() < 3e-8 and np.abs(posn['laptop'][1] - lat).max() < 3e-8, 'laptop positions are off by %s degrees', (dl.max(), np.abs(posn['laptop'][1] - lat).max()))
    for a, b, q in zip(posn['serial'], posn['laptop'], ('longitude', 'latitude')):
        need(np.abs(a - b[at]).max() < 1e-12 + 1e-9, 'the %s of a serial record differs from that of the laptop record of its second', q)
    tide = [np.asarray(call(sgg.longman_tide_prediction, *posn[name], df['date_time'])) for name, df in (('serial', raw), ('laptop', lap))]
    need(np.abs(tide[0] - tide[1][at]).max() < 1e-7, 'tides of serial and laptop records of one second differ')

    # the motion sensor at the times of the meter
    msec = np.array([e.timestamp() for e in pd.to_datetime(mru['mystery'], utc=True)])
    order = np.argsort(msec)
    for a in AXES:
        got = np.interp(sec['laptop'], msec[order], mru['%s:g' % a].values[order])
        want = np.interp(np.array(us) / 1e6, np.array(mt) / 1e6, motion[a])
        need(np.abs(got - want).max() < 1e-4 * (1 + np.abs(np.diff(motion[a])).max()), '%s at %s is %r, it was %r', a, lap['date_time'][np.abs(got - want).argmax()], got[np.abs(got - want).argmax()], want[np.abs(got - want).argmax()])
    ctx.label(ship, 'scaled' if c['scale'] else 'unscaled', 'dropouts' if not there.all() else 'complete')
    ctx.nontrivial(not there.all() and ini['GravCal'] != 1 and ini['g0'] != 0)


PARTS = [Part('cruises', cases(), run, quick=250, thorough=8000, shards=8)]
