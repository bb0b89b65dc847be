"""Merging of nav files."""
import numpy as np
from hypothesis import strategies as st

from vh import formats as F, strat as S
from vh.core import Part, call, need

PROPERTY = 'N02'
RULE = ('A case is a ship, a list of files each holding fixes drawn from one pool of times (so files overlap, repeat and '
        'interleave), a line order per file and a decimation; the oracle is a first-wins dictionary merge. '
        'Non-trivial: a time occurs twice, lines are out of order, or there are two files and a decimation.')


@st.composite
def cases(draw):
    ship = draw(st.sampled_from(F.NAV_SHIPS))
    t0 = draw(S.instants(step=1_000_000))
    q = {'Thompson': 1_000_000, 'Langseth': 100}.get(ship, 1)  # what the format resolves
    step = max(q, draw(st.sampled_from([1_000_000, 1_000_000, 2_000_000, 10_000_000, 3_600_000_000, 100_000, 1000, 100, 1])))
    half = step // 2 // q * q if draw(st.booleans()) else 0
    nf = draw(st.integers(1, 4))
    lat0, lon0 = draw(st.integers(-80, 80)), draw(st.integers(-170, 170))
    files = []
    for _ in range(nf):
        ticks = draw(st.lists(st.integers(0, 14), min_size=1, max_size=12))
        if draw(st.booleans()):
            ticks = sorted(ticks)
        if draw(st.booleans()):
            ticks = list(dict.fromkeys(ticks))
        files.append(ticks)
    if draw(st.integers(0, 4)) == 0:  # the same file twice
        files.append(list(files[0]))
    return dict(ship=ship, t0=t0, step=step, half=half, lat0=lat0, lon0=lon0, files=files,
                decimate=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5])), blanks=draw(st.booleans()),
                as_str=draw(st.booleans()), bar=draw(st.booleans()), final=draw(st.booleans()))


def fix(case, k, j, tick):
    """The j-th fix of file k: its own position, so that it can be told apart."""
    off = (k * 5003 + j * 317 + tick * 41) % 20000
    lat = case['lat0'] * F.DEG + off * 600
    lon = case['lon0'] * F.DEG + (off * 7919 % 20000) * 600
    t = case['t0'] + tick * case['step'] + (case['half'] if tick % 2 else 0)
    blank = 1 if case['blanks'] and off % 9 == 0 else 0
    return dict(t=t, lat=lat, lon=lon, digits=6, blank=blank)


def pos(f):
    return (np.nan, np.nan) if f['blank'] else (f['lon'] / F.DEG, f['lat'] / F.DEG)


def model(case, files):
    merged = {}
    for fixes in files:
        first = {}
        for f in fixes:
            first.setdefault(f['t'], pos(f))
        kept = fixes[::case['decimate']] if case['decimate'] else fixes
        for f in kept:
            merged.setdefault(f['t'], first[f['t']])
    return sorted((t, *p) for t, p in merged.items())


def check_nav(nav, want, what):
    need(not isinstance(nav, int), '%s: read_nav returned %s', what, nav)
    ts = np.asarray(nav['time_sec'], float)
    need(len(ts) == len(want), '%s: %d rows, %d distinct fix times', what, len(ts), len(want))
    need(np.all(np.diff(ts) > 0), '%s: times are not strictly increasing', what)
    stamps, col = list(nav['stamps']), {c: list(nav[c]) for c in ('lon', 'lat')}
    for i, (t, lo, la) in enumerate(want):
        need(abs(ts[i] - t / 1e6) < 0.6e-6, '%s row %d: time %.6f instead of %.6f', what, i, ts[i], t / 1e6)
        need(abs(stamps[i].timestamp() - ts[i]) < 0.6e-6, '%s row %d: stamp %s is not time_sec %.6f', what, i, stamps[i], ts[i])
        for c, w in (('lon', lo), ('lat', la)):
            g = float(col[c][i])
            need(abs(g - w) < 1e-8 or (np.isnan(g) and np.isnan(w)), '%s row %d: %s %r instead of %r', what, i, c, g, w)


def merge(case, ctx):
    import shipgrav.io as sgi
    ship = case['ship']
    files = [[fix(case, k, j, tick) for j, tick in enumerate(ticks)] for k, ticks in enumerate(case['files'])]
    if len(files) > 1 and case['files'][-1] == case['files'][0]:
        files[-1] = files[0]
    paths = ctx.files('nav', [F.end(F.nav_file(ship, fx), case.get('final', True)) for fx in files])
    arg = paths[0] if len(paths) == 1 and case['as_str'] else paths
    kept = list(paths)
    nav = call(sgi.read_nav, ship, arg, decimate=case['decimate'], progressbar=case['bar'])
    need(paths == kept, 'the list of paths was changed')
    check_nav(nav, model(case, files), ship)
    # the same fixes cut into consecutive pieces
    if len(files) == 1 and len(files[0]) > 2 and not case['decimate']:
        cut = 1 + case['t0'] % (len(files[0]) - 1)
        a = ctx.write('a.txt', F.end(F.nav_file(ship, files[0][:cut]), case.get('final', True)))
        b = ctx.write('b.txt', F.nav_file(ship, files[0][cut:]))
        check_nav(call(sgi.read_nav, ship, [a, b], progressbar=False), model(case, files), ship + ' in two pieces')
    times = [f['t'] for fx in files for f in fx]
    dup = len(set(times)) < len(times)
    disorder = any(fx[i]['t'] > fx[i + 1]['t'] for fx in files for i in range(len(fx) - 1))
    ctx.label(ship, 'files=%d' % len(files), 'decimate=%d' % case['decimate'])
    if dup:
        ctx.label('repeated times')
    ctx.nontrivial(dup or disorder or (len(files) > 1 and case['decimate']))


@st.composite
def long_cases(draw):
    ship = draw(st.sampled_from(F.NAV_SHIPS))
    seed = draw(S.seeds)
    rng = np.random.default_rng(seed)
    if draw(st.booleans()):  # many files
        nf, size, span = draw(st.integers(8, 40)), 12, 60
    else:
        nf, size, span = draw(st.integers(1, 3)), draw(st.sampled_from([300, 1500, 1500, 20000])), draw(st.sampled_from([1500, 25000]))
    return dict(ship=ship, t0=draw(S.instants(step=1_000_000)), step=draw(st.sampled_from([1_000_000, 10_000_000])), half=0, lat0=int(rng.integers(-80, 80)),
                lon0=int(rng.integers(-170, 170)), seed=seed, nf=nf, size=size, span=span, decimate=draw(st.sampled_from([0, 0, 2, 7])), blanks=draw(st.booleans()), as_str=False, bar=False)


def long_merge(case, ctx):
    rng = np.random.default_rng(case['seed'] + 1)
    files = [[int(v) for v in rng.integers(0, case['span'], case['size'])] for _ in range(case['nf'])]
    for f in files:
        if rng.random() < .5:
            f.sort()
    merge(dict(case, files=files), ctx)


PARTS = [Part('merge', cases(), merge, quick=900, thorough=20000, shards=8),
         Part('long and many files', long_cases(), long_merge, quick=16, thorough=600, shards=4),
         Part('day files', None, long_merge, shards=7, exhaustive=lambda: [
             dict(ship=ship, t0=1_262_217_600_000_000 + k * 97 * S.DAY, step=1_000_000, half=0, lat0=17 * k - 60, lon0=40 * k - 130, seed=31 * k, nf=1, size=(86_401, 100_000)[k % 2], span=200_000,
                  decimate=(0, 10, 0)[k % 3], blanks=k % 2 == 0, as_str=True, bar=False) for k, ship in enumerate(F.NAV_SHIPS)])]
