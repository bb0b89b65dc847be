"""Nav sentences decode to their true position and time."""
import numpy as np
from hypothesis import strategies as st

from vh import also, boot, formats as F, strat as S
from vh.core import Part, call, need

PROPERTY = 'N01'
RULE = ('A case is a ship, line ending and a list of fixes (time, position, minute decimals, fraction digits, blank kind, '
        'logger lag, foreign sentences around it), rendered in the ship\'s file format; the oracle is the rendered truth. '
        'Non-trivial: at least one fix with a position and a non-zero fraction of a second, a day straddle, a blank or a '
        'foreign sentence.')


@st.composite
def fix_list(draw, ship, n, local, talker=None):
    t = draw(S.instants(step=1_000_000))
    q, ld = {'Thompson': 1, 'Langseth': 100}.get(ship, 1), 6
    lat0 = draw(st.one_of(st.integers(-89 * F.DEG, 89 * F.DEG), st.integers(-F.DEG, F.DEG)))
    lon0 = draw(st.one_of(st.integers(-178 * F.DEG, 178 * F.DEG), st.integers(-F.DEG, F.DEG)))
    out = []
    for _ in range(n):
        digits = draw(st.integers(0, 6))
        if F.own_clock(ship):
            tt = t + draw(st.integers(0, 999_999))
            tt -= tt % q
            if ship == 'Sikuliaq' or talker == 'GPGGA':  # loggers write one to six digits
                ld = draw(st.sampled_from([6, 6, 3, 1, 2, 4, 5]))
                tt -= tt % 10 ** (6 - ld)
            elif ship == 'Ride' and draw(st.integers(0, 3)) == 0:  # a whole second, with or without its point
                ld, tt = draw(st.sampled_from([6, 0])), t
        else:
            f = draw(st.one_of(st.integers(0, 10 ** digits - 1), st.just(0))) * 10 ** (6 - digits)
            tt = t + f
            ld = draw(st.sampled_from([6, 2])) if ship == 'NBP' else ld
        ndec = draw(st.integers(2, 6))
        g = 10 ** (6 - ndec)
        if local:
            lat = lat0 + draw(st.integers(-F.DEG // 3, F.DEG // 3))
            lon = lon0 + draw(st.integers(-F.DEG // 3, F.DEG // 3))
        else:
            lat = draw(st.one_of(st.integers(-90 * F.DEG, 90 * F.DEG), st.sampled_from([0, 90 * F.DEG, -90 * F.DEG])))
            lon = draw(st.one_of(st.integers(-180 * F.DEG, 180 * F.DEG), st.sampled_from([0, 180 * F.DEG, -180 * F.DEG])))
        sg = [1 if v >= 0 else -1 for v in (lat, lon)]
        out.append(dict(t=tt, digits=digits, logdigits=ld, ndec=ndec, lat=sg[0] * (abs(lat) // g * g), lon=sg[1] * (abs(lon) // g * g),
                        blank=draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2, 3, 4])) if local else 0,
                        lag=draw(st.one_of(st.integers(-3_000_000, 3_000_000), st.integers(-600_000_000, 600_000_000), st.integers(-39_600_000_000, 39_600_000_000),
                                           st.just(0))),
                        before=draw(st.lists(st.integers(0, 5), max_size=3)), sep=draw(st.sampled_from([',', ',', ',', ' ,', ' '])), between=draw(st.sampled_from([0, 0, 0, 1, 5, 12, 60])), noise=draw(st.sampled_from([[], [], []] + [[k] for k in range(len(F.NOISE))])), dated=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4]))))
        # Thompson keeps whole seconds, so fixes are at least one apart
        t += draw(st.one_of(st.just(1), st.integers(1, 30), st.integers(1, 7200))) * 1_000_000
    return out


@st.composite
def cases(draw, local=True, nmax=8):
    ship = draw(st.sampled_from(F.NAV_SHIPS))
    n = draw(st.integers(1, nmax))
    # (Ride's GPGGA has stamps of its own form, Sikuliaq's reader is for GPGGA only)
    talker = draw(st.sampled_from([None, 'GPGGA'] if ship == 'Ride' else [None] if ship == 'Sikuliaq' else [None, None, 'GPGGA', 'INGGA', 'GNGGA']))
    return dict(ship=ship, talker=talker, eol=draw(st.sampled_from(['\n', '\n', '\r\n'])), fixes=draw(fix_list(ship, n, local, talker)),
                tail=draw(st.lists(st.integers(0, 5), max_size=2)), final=draw(st.booleans()))


def truth(ship, fixes):
    return [(F.nav_time(ship, f['t']) / 1e6, np.nan if f['blank'] else f['lon'] / F.DEG,
             np.nan if f['blank'] else f['lat'] / F.DEG) for f in fixes]


def decode(case, ctx):
    import shipgrav.io as sgi
    ship, fixes, talker = case['ship'], case['fixes'], case.get('talker')
    text = F.nav_file(ship, fixes, talker=talker, eol=case['eol'])
    if case['tail']:
        last = fixes[-1]
        text += case['eol'].join(F.nav_line(ship, F.foreign(k, last['t'], talker or F.TALKER[ship]), last['t'], talker) for k in case['tail'])
        text += case['eol']
    p = ctx.files('nav', [F.end(text, case.get('final', True))])[0]
    nav = call(sgi.read_nav, ship, p, progressbar=False, **(dict(talker=talker) if talker else {}))
    want = truth(ship, fixes)
    need(not isinstance(nav, int), 'read_nav refused a %s file: %s', ship, nav)
    need(len(nav) == len(want), '%s: %d fixes in the file, %d rows returned', ship, len(want), len(nav))
    ts, lon, lat = (np.asarray(nav[c], dtype=float) for c in ('time_sec', 'lon', 'lat'))
    stamps = list(nav['stamps'])
    for i, (t, lo, la) in enumerate(want):
        need(abs(ts[i] - t) < 0.6e-6, '%s row %d: time %.6f, the record says %.6f (off by %.6f s)', ship, i, ts[i], t, ts[i] - t)
        need(abs(stamps[i].timestamp() - t) < 0.6e-6 and stamps[i].utcoffset() is not None
             and not stamps[i].utcoffset(), '%s row %d: stamp %s is not %.6f UTC', ship, i, stamps[i], t)
        ok = abs(lon[i] - lo) < 1e-8 or (np.isnan(lo) and np.isnan(lon[i]))
        need(ok, '%s row %d: longitude %r, the sentence says %r', ship, i, lon[i], lo)
        need(abs(lat[i] - la) < 1e-8 or (np.isnan(la) and np.isnan(lat[i])), '%s row %d: latitude %r, the sentence says %r',
             ship, i, lat[i], la)
    ctx.label(ship + (' ' + talker if talker else ''))
    straddle = any(F.dt(f['t']).date() != F.dt(f['t'] + f['lag']).date() for f in fixes) and not F.own_clock(ship)
    if straddle:
        ctx.label('day straddle')
    if any(f['blank'] for f in fixes):
        ctx.label('blank fix')
    ctx.nontrivial(any(f['t'] % 1_000_000 for f in fixes) or straddle or any(f['blank'] or f['before'] for f in fixes))


@st.composite
def long_cases(draw):
    ship = draw(st.sampled_from(F.NAV_SHIPS))
    return dict(ship=ship, seed=draw(S.seeds), n=draw(st.sampled_from([300, 1500, 4000])), t=draw(S.instants(step=1_000_000)), step=draw(st.sampled_from([1, 1, 10, 60])),
                eol=draw(st.sampled_from(['\n', '\r\n'])))


def long_decode(case, ctx):
    rng = np.random.default_rng(case['seed'])
    n, ship = case['n'], case['ship']
    q = {'Thompson': 1_000_000, 'Langseth': 100}.get(ship, 10_000)
    lon = int(rng.integers(-170, 170)) * F.DEG + np.cumsum(rng.integers(-200_000, 200_000, n))
    lat = int(rng.integers(-60, 60)) * F.DEG + np.cumsum(rng.integers(-200_000, 200_000, n))
    fixes = []
    for i in range(n):
        t = case['t'] + i * case['step'] * 1_000_000 + int(rng.integers(0, 1_000_000)) // q * q
        fixes.append(dict(t=t, lat=int(lat[i]), lon=int(lon[i]), digits=0 if ship == 'Thompson' else 2, ndec=6, blank=int(rng.random() < .01), lag=int(rng.integers(-400_000, 400_000)),
                          before=[int(k) for k in rng.integers(0, 6, rng.integers(0, 2))], noise=[int(k) for k in rng.integers(0, len(F.NOISE), int(rng.random() < .02))]))
    decode(dict(ship=ship, fixes=fixes, eol=case['eol'], tail=[]), ctx)


PARTS = [Part('long files', long_cases(), long_decode, quick=16, thorough=600, shards=4), Part('tracks', cases(True), decode, quick=900, thorough=20000, shards=6),
         Part('single fixes anywhere', cases(False, 1), decode, quick=400, thorough=10000, shards=2)] + also.parts(PROPERTY)
