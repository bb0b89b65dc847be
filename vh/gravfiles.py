"""Generated gravimeter files of every reader, with their truth: used by B01, B02, D01-D04 and E02."""
import numpy as np
from hypothesis import strategies as st

from . import formats as F, strat as S

BGM = ('Atlantis', 'Thompson', 'Revelle', 'Langseth')
LD = st.one_of(st.none(), st.integers(1, 6))  # digits of the fraction in the stamps of the logger
LAPTOP = ('Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Thompson', 'Sikuliaq', 'Langseth')
RAWDIGITS = {'Thompson': 3, 'Sikuliaq': 4}
RAWSHIPS = ('Atlantis', 'Revelle', 'Ride', 'NBP', 'Thompson', 'Sikuliaq')


def times(draw, n, step):
    t = draw(S.instants(step=step))
    out = []
    for _ in range(n):
        out.append(t)
        t += draw(st.one_of(st.just(1_000_000), st.integers(0, 3_000_000), st.integers(-10_000_000, 100_000_000))) // step * step
    return out


@st.composite
def bgm(draw, nmax=8, ship=None):
    ship = ship or draw(st.sampled_from(BGM))
    n = draw(st.integers(1, nmax))
    digits = draw(st.sampled_from([3, 3, 3, 6, 1]))
    return dict(ship=ship, digits=digits, t=times(draw, n, 1 if ship == 'Revelle' else 100 if ship == 'Langseth' else 10 ** (6 - digits)),
                counts=draw(st.lists(st.one_of(st.integers(0, 999999), st.integers(0, 99), st.just(25000)), min_size=n, max_size=n)), frame=draw(st.sampled_from([['04', '00'], ['04', '00'], ['05', '01'], ['4', '80'], ['12', '00']])),
                eol=draw(st.sampled_from(['\n', '\n', '\r\n'])), final=draw(st.booleans()))


def bgm_text(c):
    return F.end(''.join(F.bgm_line(c['ship'], t, k, c.get('digits', 3), *c.get('frame', ())) + c['eol'] for t, k in zip(c['t'], c['counts'])), c.get('final', True))


@st.composite
def rgs(draw, nmax=6, ship=None):
    n = draw(st.integers(1, nmax))
    digits = draw(st.sampled_from([3, 3, 3, 6, 1]))
    place = lambda v: st.one_of(S.dec(-v, v, 6).map('{:.6f}'.format), S.dec(-v, v, 6).map('{:.6f}'.format), st.sampled_from(['%d.000000' % v, 'NaN', '']))
    return dict(ship=ship or draw(st.sampled_from(['Atlantis', 'NBP'])), digits=digits, t=times(draw, n, 10 ** (6 - digits)), eol=draw(st.sampled_from(['\r\n', '\n'])), final=draw(st.booleans()),
                recs=[dict(grav='%.3f' % draw(S.dec(976000, 984500, 3)), lat=draw(place(90)),
                           lon=draw(st.one_of(place(180), place(360))), junk=draw(st.lists(st.one_of(st.integers(-99999, 999999), st.integers(-99999, 999999), st.none()), min_size=11, max_size=11)))
                      for _ in range(n)])


def rgs_text(c):
    return F.end(''.join(F.rgs_line(t, r['grav'], r['lat'], r['lon'], r['junk'], c.get('digits', 3)) + c['eol'] for t, r in zip(c['t'], c['recs'])), c.get('final', True))


num12 = st.one_of(S.dec(-99, 99, 6), S.dec(-99999, 99999, 3), S.dec(-1, 1, 9), st.just(0.0))


def blank_some(draw, rec, names):
    """Leave fields blank in some records."""
    if draw(st.integers(0, 4)) == 0:
        for n in draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True)):
            rec[n] = None


@st.composite
def laptop_rec(draw):
    rec = {n: draw(num12) for n in F.LAPTOP[:19]}
    rec['rgrav'] = draw(S.dec(0, 20000, 6))
    rec['qc'] = draw(S.dec(0, 20000, 6))
    rec['status'] = draw(st.integers(0, 65535))
    rec['checksum'] = draw(st.integers(0, 9999999))
    rec['lat'] = draw(S.dec(-90, 90, 9))
    rec['lon'] = draw(st.one_of(S.dec(-180, 180, 9), S.dec(-180, 360, 9)))
    rec['numline'] = draw(st.integers(0, 99999999))
    blank_some(draw, rec, [n for n in F.LAPTOP[:19] if n not in ('status', 'checksum')])
    return rec


@st.composite
def laptop(draw, nmax=6, ship=None):
    ship = ship or draw(st.sampled_from(LAPTOP))
    n = draw(st.integers(1, nmax))
    log = draw(st.one_of(st.integers(-5_000_000, 5_000_000), st.integers(-10 ** 13, 10 ** 13)))
    ld = draw(LD)
    q = 10 ** (6 - (ld or 3))
    return dict(ship=ship, ld=ld, t=times(draw, n, 10_000), log=log // q * q, recs=[draw(laptop_rec()) for _ in range(n)],
                eol=draw(st.sampled_from(['\n', '\n', '\r\n'])), prefix=draw(st.booleans()), final=draw(st.booleans()))


def laptop_lines(c):
    return [F.laptop_line(c['ship'], r, t, t + c['log'], c.get('ld')) for t, r in zip(c['t'], c['recs'])]


def laptop_text(c):
    return F.end(F.laptop_file(c['ship'], laptop_lines(c), c['eol']), c.get('final', True))


def laptop_time(c, i):
    """The instant date_time must be."""
    if c['ship'] == 'Thompson':
        t = c['t'][i] + c['log']
        return t - t % 10 ** (6 - (c.get('ld') or 3))
    return c['t'][i]


@st.composite
def raw_rec(draw, strict=False):
    big = st.one_of(st.integers(-9_999_999, 9_999_999), st.integers(-9, 9))
    rec = {n: draw(big) for n in F.RAW}
    rec['status'] = draw(st.integers(0, 65535))
    rec['latitude'] = draw(S.dec(-90, 90, 8))
    rec['longitude'] = draw(st.one_of(S.dec(-180, 180, 8), S.dec(-180, 360, 8)))
    rec['speed'] = draw(S.dec(0, 30, 3))
    rec['course'] = draw(S.dec(0, 360, 2))
    rec['clock'] = draw(st.one_of(st.integers(1, 99_999_999), st.integers(1_000_000_000, 1_999_999_999), st.integers(2_000_000_000, 9_999_999_999_999)))
    rec['num'] = draw(st.integers(0, 9999999))
    rec['model'] = draw(st.sampled_from(['3.64', '3.64', '4.1b2', 'M-33']))
    blank_some(draw, rec, [n for n in F.RAW if not strict or n not in F.RAW_SKQ.values()])
    return rec


@st.composite
def raw(draw, nmax=6, ship=None):
    ship = ship or draw(st.sampled_from(RAWSHIPS))
    n = draw(st.integers(1, nmax))
    log = draw(st.one_of(st.integers(-5_000_000, 5_000_000), st.integers(-10 ** 13, 10 ** 13)))
    ld = draw(LD)
    q = 10 ** (6 - (ld or RAWDIGITS.get(ship, 6)))
    return dict(ship=ship, ld=ld, t=times(draw, n, 1_000_000), log=log // q * q, recs=[draw(raw_rec(ship == 'Sikuliaq')) for _ in range(n)],
                synced=draw(st.booleans()), prefix=draw(st.booleans()), scale=draw(st.booleans()), head=draw(st.one_of(st.none(), st.tuples(st.sampled_from([0, 1, 18, 19, 20, 40]), st.integers(0, n)).map(list))),
                eol=draw(st.sampled_from(['\n', '\n', '\r\n'])), final=draw(st.booleans()))


def raw_text(c):
    return F.end(F.raw_file(c['ship'], [F.raw_line(c['ship'], r, t, t + c['log'], c['synced'], c['prefix'], c.get('ld'))
                                        for t, r in zip(c['t'], c['recs'])], c['eol'], c.get('head')), c.get('final', True))


def raw_time(c, i):
    """The instant date_time must be, or None when the file says nothing about it."""
    log = c['t'][i] + c['log']
    log -= log % 10 ** (6 - (c.get('ld') or RAWDIGITS.get(c['ship'], 6)))
    if c['ship'] in RAWDIGITS:
        return log
    if c['synced']:
        return c['t'][i]
    return log if c['prefix'] else None


def stamp_us(x):
    """Microseconds since the epoch of whatever timestamp type came back; it must say it is UTC or be naive UTC."""
    import pandas as pd
    x = pd.Timestamp(x)
    if x.tzinfo is None:
        x = x.tz_localize('UTC')
    return round(x.timestamp() * 1e6)


# ---------------------------------------------------------------- long files, from a seed

def _big_times(rng, n, step):
    t = int(rng.integers(10960, 22000)) * S.DAY + int(rng.integers(0, S.DAY))
    gaps = np.where(rng.random(n) < .97, 1_000_000, rng.integers(-10_000_000, 100_000_000, n))
    t = t + np.concatenate([[0], np.cumsum(gaps[1:])])
    return [int(v) for v in t // step * step]


def big(reader, ship, seed, n):
    """A file of n records in the form the generators above make."""
    rng = np.random.default_rng(seed)
    eol = '\n' if seed % 3 else '\r\n'
    log = int(rng.integers(-5_000_000, 5_000_000))

    def dec(lo, hi, places):
        return [round(float(v), places) for v in rng.uniform(lo, hi, n)]

    def ints(lo, hi):
        return [int(v) for v in rng.integers(lo, hi, n)]
    if reader == 'bgm':
        step = 1 if ship == 'Revelle' else 100 if ship == 'Langseth' else 1000
        return dict(ship=ship, t=_big_times(rng, n, step), counts=ints(0, 1_000_000), eol=eol)
    if reader == 'rgs':
        cols = [dec(976000, 984500, 3), dec(-90, 90, 6), dec(-180, 180, 6)]
        junk = rng.integers(-99999, 999999, (n, 11)).tolist()
        return dict(ship=ship, t=_big_times(rng, n, 1000), eol=eol, recs=[dict(grav='%.3f' % a, lat='%.6f' % b, lon='%.6f' % c, junk=j) for a, b, c, j in zip(*cols, junk)])
    if reader == 'laptop':
        col = {k: dec(-999, 999, 9) for k in F.LAPTOP[:19]}
        col.update(rgrav=dec(0, 20000, 6), qc=dec(0, 20000, 6), status=ints(0, 65536), checksum=ints(0, 9999999), lat=dec(-90, 90, 9), lon=dec(-180, 180, 9), numline=ints(0, 99999999))
        return dict(ship=ship, t=_big_times(rng, n, 10_000), log=log // 1000 * 1000, recs=[dict(zip(col, v)) for v in zip(*col.values())], eol=eol, prefix=True)
    col = {k: ints(-9_999_999, 9_999_999) for k in F.RAW}
    col.update(status=ints(0, 65536), latitude=dec(-90, 90, 8), longitude=dec(-180, 180, 8), speed=dec(0, 30, 3), course=dec(0, 360, 2), clock=ints(1, 99_999_999), num=ints(0, 9999999))
    q = 1000 if ship == 'Thompson' else 100 if ship == 'Sikuliaq' else 1
    return dict(ship=ship, t=_big_times(rng, n, 1_000_000), log=log // q * q, recs=[dict(zip(col, v)) for v in zip(*col.values())], synced=bool(seed & 1), prefix=bool(seed & 2), scale=bool(seed & 4), eol=eol)


@st.composite
def big_cases(draw, reader, ships):
    """One long file, or many short ones."""
    many = draw(st.booleans())
    seed = draw(S.seeds)
    return dict(reader=reader, ship=draw(st.sampled_from(ships)), seed=seed, sizes=[int(v) for v in np.random.default_rng(seed).integers(1, 4, draw(st.integers(9, 40)))] if many else [draw(st.sampled_from([150, 1100, 5000]))])


def day_cases(reader, ships):
    """A file of more than a day of seconds for every format."""
    return lambda: [dict(reader=reader, ship=ship, seed=8191 * (k + 1), sizes=[86_400 + (10_001, 1, 17_003)[k % 3]]) for k, ship in enumerate(ships)]


def expand(case):
    """The files of a big case; set-up switches are those of the first."""
    files = [big(case['reader'], case['ship'], case['seed'] + 8 * k, n) for k, n in enumerate(case['sizes'])]
    return files
