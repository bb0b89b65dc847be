"""DGS raw (serial) files."""
import pandas as pd
from hypothesis import strategies as st

from vh import also, formats as F, gravfiles as G
from vh.core import Part, call, need

PROPERTY = 'D03'
RULE = ('A case is one to three serial files of one ship (clock synchronised or not, stamped by the logger or not, scaling on or '
        'off) with arbitrary field values; the oracle is the records. Non-trivial: some record with four different non-zero monitors.')
CCP = ('vcc', 've', 'al', 'ax')


@st.composite
def cases(draw):
    ship = draw(st.sampled_from(G.RAWSHIPS))
    files = draw(st.lists(G.raw(ship=ship), min_size=1, max_size=3))
    if ship not in ('Thompson', 'Sikuliaq'):  # one logger set-up per cruise
        for f in files:
            f['synced'], f['prefix'] = files[0]['synced'], files[0]['prefix']
    for f in files:
        f['scale'] = files[0]['scale']
    return dict(files=files, as_str=draw(st.booleans()), default=draw(st.booleans()), bar=draw(st.booleans()))


def check(r, files, what):
    f0 = files[0]
    ship = f0['ship']
    need(not isinstance(r, int), '%s: refused', what)
    want = [(G.raw_time(f, i), f['recs'][i]) for f in files for i in range(len(f['t']))]
    need(len(r) == len(want), '%s: %d records, %d rows', what, len(want), len(r))
    names = F.RAW_SKQ if ship == 'Sikuliaq' else {n: n for n in F.RAW}
    for c, n in names.items():
        need(c in r.columns, '%s: no column %s', what, c)
        fac = 1e-5 if n in CCP and f0['scale'] else 1
        col = list(r[c])
        for i, (_, rec) in enumerate(want):
            g = float(col[i])
            if rec[n] is None:
                need(g != g, '%s row %d: blank %s is %r', what, i, c, g)
                continue
            need(abs(g - rec[n] * fac) <= 1e-9 * (abs(rec[n] * fac)) + 1e-12, '%s row %d: %s is %r, recorded %r x %g', what, i, c, g, rec[n], fac)
    col = list(r['date_time']) if 'date_time' in r.columns else [None] * len(want)
    for i, (t, _) in enumerate(want):
        d = col[i]
        if t is None:
            need(d is None or pd.isna(d), '%s row %d: an unsynchronised clock became date %s', what, i, d)
        else:
            need(d is not None and not pd.isna(d), '%s row %d: no date_time, recorded %s', what, i, F.dt(t))
            need(pd.Timestamp(d).tzinfo is not None, '%s row %d: date_time %r has no time zone', what, i, d)
            need(abs(G.stamp_us(d) - t) <= 1, '%s row %d: date_time %s, recorded %s', what, i, d, F.dt(t))


def run(case, ctx):
    import shipgrav.io as sgi
    files = case['files']
    ship = files[0]['ship']
    paths = ctx.files('serial', [G.raw_text(f) for f in files])
    kw = {} if files[0]['scale'] and case['default'] else {'scale_ccp': files[0]['scale']}
    r = call(sgi.read_dgs_raw, paths[0] if len(paths) == 1 and case['as_str'] else paths, ship, progressbar=case['bar'], **kw)
    check(r, files, '%s (%s, scaling %s)' % (ship, 'synced' if files[0]['synced'] else 'unsynced', files[0]['scale']))
    ctx.label(ship, 'synced' if files[0]['synced'] else 'unsynced', 'scaled' if files[0]['scale'] else 'unscaled')
    ctx.nontrivial(any(len({rec[c] for c in CCP} - {0}) == 4 for f in files for rec in f['recs']))


def long_run(case, ctx):
    run(dict(files=G.expand(case), as_str=case['seed'] % 2 == 0, default=case['seed'] % 5 == 0, bar=False), ctx)


PARTS = [Part('decode', cases(), run, quick=600, thorough=10000, shards=8),
         Part('long files', G.big_cases('raw', G.RAWSHIPS), long_run, quick=24, thorough=600, shards=4),
         Part('day files', None, long_run, shards=3, exhaustive=G.day_cases('raw', ('Ride', 'Thompson', 'Sikuliaq')))] + also.parts(PROPERTY)
