"""Refusals, overrides and defaults."""
from datetime import timezone

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import also, formats as F, strat as S
from vh.core import Part, call, need

PROPERTY = 'N04'
RULE = ('A case is a reader, a ship name (supported, unsupported, or a near miss of a supported one) and the overrides given; '
        'the oracle is the documented support table and a recording stand-in for the supplied function. '
        'Non-trivial: an override is given, or the name is not supported by that reader.')

NAMES = ['Atlantis', 'NBP', 'Thompson', 'Revelle', 'Ride', 'Langseth', 'Sikuliaq', 'DGStest']
SUPPORT = dict(nav=set(F.NAV_SHIPS), bgm={'Atlantis', 'Thompson', 'Revelle', 'Langseth'}, rgs={'Atlantis', 'NBP'},
               laptop={'Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Thompson', 'Sikuliaq', 'Langseth'})


@st.composite
def names(draw):
    base = draw(st.sampled_from(NAMES))
    return draw(st.one_of(st.just(base), st.just(base), st.sampled_from(
        [base.lower(), base.upper(), base + ' ', ' ' + base, base[:-1], base + 'X', 'R/V ' + base, '']),
        st.text('abcdefgABCDEFG /-', max_size=10)))


@st.composite
def cases(draw):
    return dict(reader=draw(st.sampled_from(['nav', 'nav', 'bgm', 'bgm', 'rgs', 'laptop'])), ship=draw(names()),
                talker=draw(st.sampled_from([None, None, 'GPGGA', 'INGGA', 'PHGGA', 'XXGGA'])),
                scale=draw(st.one_of(st.none(), st.none(), S.dec(0.5, 9.0, 3), st.just(1.0), st.just(0.0))),
                func=draw(st.booleans()), t=draw(S.instants(step=1_000_000)), nfiles=draw(st.integers(1, 3)),
                as_str=draw(st.booleans()), void=draw(st.sampled_from([-1, -1, 0, 1, 2])), vals=draw(st.lists(st.integers(1, 999999), min_size=3, max_size=3)))


def refused(r, what):
    need(isinstance(r, (int, np.integer)) and not isinstance(r, bool) and r == -999, '%s must be refused with -999, got %s', what,
         str(r)[:200])


def run(case, ctx):
    import shipgrav.io as sgi
    reader, ship, t = case['reader'], case['ship'], case['t']
    n = case['nfiles']
    as_str = n == 1 and case['as_str']
    void = case['void'] if n > 1 and case['func'] else -1  # one of the files has nothing to give
    some = [k for k in range(n) if k != void]
    known = ship in SUPPORT[reader]
    calls = []
    if reader == 'nav':
        talker, func = case['talker'], None
        if case['func']:
            paths = [ctx.write('f%d' % k, 'line a %d\nline b\n' % k) for k in range(n)]

            def func(lines, tk):
                k = len(calls)
                calls.append((list(lines), tk))
                sec = [F.dt(t + (10 * k + j) * 1_000_000) for j in range(2)]
                return np.array([1.0 + k, 1.01 + k]), np.array([-2.0 - k, -2.01 - k]), np.array(sec, dtype=object)
        else:
            fmt = ship if known else 'Atlantis'
            tk = talker or F.TALKER[fmt]
            if fmt == 'Sikuliaq' and talker not in (None, 'GPGGA'):
                return
            paths = []
            for k in range(n):
                fx = [dict(t=t + (10 * k + j) * 1_000_000, lat=F.DEG * (j + 1), lon=F.DEG * (j + 1) * 5) for j in range(2)]
                # the other talker's sentences are in the file as well, elsewhere
                other = 'INGGA' if tk != 'INGGA' else 'GPGGA'
                decoy = [dict(f, lat=-30 * F.DEG, lon=-40 * F.DEG, t=f['t'] + 333_000_000) for f in fx]
                if fmt == 'Ride' and tk not in ('INGGA', 'GPGGA'):
                    return
                body = F.nav_file(fmt, fx, talker=tk)
                if fmt not in ('Ride', 'Sikuliaq', 'Revelle'):
                    body += F.nav_file(fmt, decoy, talker=other)
                paths.append(ctx.write('f%d' % k, body))
        kw = dict(progressbar=False)
        if talker:
            kw['talker'] = talker
        if func:
            kw['ship_function'] = func
        r = call(sgi.read_nav, ship, paths[0] if as_str else paths, **kw)
        if not known and (func is None or talker is None):
            refused(r, f'nav for {ship!r} without a {"talker" if func else "function"}')
            need(not calls, 'the supplied function was called although the ship was refused')
        elif func:
            want_tk = talker or F.TALKER[ship]
            need(len(calls) == n, 'the supplied function was called %d times for %d files', len(calls), n)
            for k, (lines, tk) in enumerate(calls):
                need(tk == want_tk, 'the supplied function got talker %r instead of %r', tk, want_tk)
                need([l.rstrip('\n') for l in lines] == ['line a %d' % k, 'line b'], 'file %d: lines handed over as %r', k, lines)
            want = [(t / 1e6 + 10 * k + j, 1.0 + k + .01 * j, -2.0 - k - .01 * j) for k in range(n) for j in range(2)]
            need(len(r) == len(want), '%d rows from the supplied function, %d returned', len(want), len(r))
            for i, (a, lo, la) in enumerate(want):
                got = (r['time_sec'].iloc[i], r['lon'].iloc[i], r['lat'].iloc[i])
                need(abs(got[0] - a) < 1e-5 and abs(got[1] - lo) < 1e-9 and abs(got[2] - la) < 1e-9,
                     'row %d is %r, the supplied function said %r', i, got, (a, lo, la))
        else:
            need(not isinstance(r, int), 'nav for %s (talker %s) was refused', ship, talker)
            want = [(F.nav_time(ship, t) / 1e6 + 10 * k + j, j + 1.0) for k in range(n) for j in range(2)]
            need(len(r) == len(want), '%s talker %s: %d rows instead of %d', ship, talker, len(r), len(want))
            for i, (a, la) in enumerate(want):
                need(abs(r['time_sec'].iloc[i] - a) < 1e-5 and abs(r['lat'].iloc[i] - la) < 1e-8,
                     '%s talker %s: row %d is not that talker\'s fix', ship, talker, i)
        ctx.nontrivial(not known or bool(talker) or bool(func))
    elif reader == 'bgm':
        func = None
        scale = case['scale']
        fmt = ship if ship in SUPPORT['bgm'] else 'Atlantis'
        if case['func']:
            paths = [ctx.write('f%d' % k, 'x') for k in range(n)]

            def func(path):
                calls.append(path)
                return pd.DataFrame({'date_time': [pd.Timestamp(t, unit='us', tz='UTC')], 'counts': [case['vals'][len(calls) - 1]],
                                     'extra': ['z%d' % len(calls)]}).iloc[:int(len(calls) - 1 != void)]
        else:
            paths = [ctx.write('f%d' % k, F.bgm_line(fmt, t, case['vals'][k]) + '\n') for k in range(n)]
        kw = dict(progressbar=False)
        if scale is not None:
            kw['scale'] = scale
        if func:
            kw['ship_function'] = func
        r = call(sgi.read_bgm_raw, paths[0] if as_str else paths, ship, **kw)
        if not known and (scale is None or func is None):
            refused(r, f'BGM serial for {ship!r}')
        else:
            sc = scale if scale is not None else F.BGM_SCALE[ship]
            need(not isinstance(r, int), 'BGM serial for %r was refused', ship)
            if func:
                need(calls == paths, 'the supplied function was called with %r instead of %r', calls, paths)
                need(list(r['extra']) == ['z%d' % (k + 1) for k in some], 'columns of the supplied function were lost')
            vals = [case['vals'][k] for k in some]
            need(list(r['counts']) == vals, 'counts %r instead of %r', list(r['counts']), vals)
            for g, c in zip(r['rgrav'], vals):
                need(abs(g - sc * c) <= 1e-12 * abs(sc * c), 'rgrav %r is not %r x %r', g, sc, c)
        ctx.nontrivial(not known or scale is not None or case['func'])
    elif reader == 'rgs':
        paths = [ctx.write('f%d' % k, F.rgs_line(t, '980329.272', '41.5', '-70.6', [case['vals'][k]] * 11) + '\n') for k in range(n)]
        r = call(sgi.read_bgm_rgs, paths[0] if as_str else paths, ship, progressbar=False)
        if known:
            need(not isinstance(r, int) and len(r) == n, 'RGS for %s was not read', ship)
        else:
            refused(r, f'RGS for {ship!r}')
        ctx.nontrivial(not known)
    else:
        func = None
        fmt = ship if ship in SUPPORT['laptop'] else 'Atlantis'
        rec = {c: 1.5 for c in F.LAPTOP}
        rec.update(status=20814, checksum=5, numline=1)
        paths = [ctx.write('f%d' % k, F.laptop_file(fmt, [F.laptop_line(fmt, dict(rec, rgrav=100.0 + k), t, t)])) for k in range(n)]
        kw = dict(progressbar=False)
        if case['func']:
            def func(path):
                calls.append(path)
                return pd.DataFrame({'rgrav': [float(len(calls))], 'mine': [7]}).iloc[:int(len(calls) - 1 != void)]
            kw['ship_function'] = func
        r = call(sgi.read_dgs_laptop, paths[0] if as_str else paths, ship, **kw)
        if func:
            need(not isinstance(r, int), 'laptop read with a supplied function was refused for %r', ship)
            need(calls == paths, 'the supplied function was called with %r instead of %r', calls, paths)
            need(list(r['rgrav']) == [k + 1.0 for k in some] and list(r['mine']) == [7] * len(some),
                 'the supplied function\'s data were not returned')
        elif known:
            need(not isinstance(r, int) and np.allclose(r['rgrav'], [100.0 + k for k in range(n)]), 'laptop read for %s: wrong data', ship)
        else:
            refused(r, f'DGS laptop for {ship!r}')
        ctx.nontrivial(not known or case['func'])
    ctx.label(reader, 'known' if known else 'unknown', 'func' if case['func'] else 'built-in')


@st.composite
def absent(draw):
    ship = draw(st.sampled_from(F.NAV_SHIPS))
    return dict(ship=ship, n=draw(st.integers(1, 3)), at=draw(st.integers(0, 2)), t=draw(S.instants(step=1_000_000)), talker=draw(st.sampled_from([None, 'GPGGA', 'INGGA', 'PHGGA'])), rows=draw(st.integers(1, 4)))


def nowhere(c, ctx):
    """No fix of the talker in one of the files: nothing may be made up."""
    import shipgrav.io as sgi
    ship, n = c['ship'], c['n']
    tk = c['talker'] or F.TALKER[ship]
    if ship in ('Ride', 'Sikuliaq') and tk not in ('INGGA', 'GPGGA') or ship == 'Sikuliaq' and tk != 'GPGGA':
        return
    paths = []
    for k in range(n):
        fx = [dict(t=c['t'] + (10 * k + j) * 1_000_000, lat=F.DEG * 3, lon=F.DEG * 5) for j in range(c['rows'])]
        other = 'INGGA' if tk == 'GPGGA' else 'GPGGA'
        paths.append(ctx.write('f%d' % k, F.nav_file(ship, fx, talker=other if k == c['at'] % n else tk)))
    kw = dict(progressbar=False)
    if c['talker']:
        kw['talker'] = tk
    try:
        r = sgi.read_nav(ship, paths, **kw)
    except Exception as e:
        need(ship not in ('Ride', 'Sikuliaq'), 'a file without %s sentences must be refused with -999, not %r', tk, e)
        r = -999
    if ship in ('Ride', 'Sikuliaq'):
        refused(r, f'{ship} file without {tk} sentences')
    elif not (isinstance(r, (int, np.integer)) and r == -999):
        need(len(r) == c['rows'] * (n - 1), '%d rows come from %d sentences of %s', len(r), c['rows'] * (n - 1), tk)
    ctx.label(ship)
    ctx.nontrivial(n > 1)


def every_name():
    """Every reader with every ship's name in other spellings, and names of no ship."""
    near = lambda b: [b, b.lower(), b.upper(), b.title(), b.swapcase(), b + ' ', ' ' + b, b[:-1], b + 'X', b[:3], 'R/V ' + b, b + '2']
    out = sorted({v for b in NAMES + ['default', 'none', 'Unknown'] for v in near(b)} | {'', 'None', '0'})
    return [dict(reader=r, ship=v, talker=None, scale=None, func=False, t=1_600_000_000_000_000, nfiles=1, as_str=False, void=-1, vals=[25000, 1, 2]) for r in ('nav', 'bgm', 'rgs', 'laptop') for v in out]


PARTS = [Part('every name', None, run, shards=2, exhaustive=every_name), Part('talker missing from a file', absent(), nowhere, quick=150, thorough=3000, shards=1),
         Part('lookup', cases(), run, quick=1600, thorough=20000, shards=8)] + also.parts(PROPERTY)
