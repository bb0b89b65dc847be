"""RGS files."""
from hypothesis import strategies as st

from vh import formats as F, gravfiles as G
from vh.core import Part, call, need

PROPERTY = 'B02'
RULE = ('A case is one to three RGS files with arbitrary values in every field of every record; the oracle is the records. '
        'Non-trivial: at least two different records.')


@st.composite
def cases(draw):
    ship = draw(st.sampled_from(['Atlantis', 'NBP']))
    return dict(files=draw(st.lists(G.rgs(ship=ship), min_size=1, max_size=3)), as_str=draw(st.booleans()), bar=draw(st.booleans()))


def run(case, ctx):
    import shipgrav.io as sgi
    files = case['files']
    paths = ctx.files('rgs', [G.rgs_text(f) for f in files])
    r = call(sgi.read_bgm_rgs, paths[0] if len(paths) == 1 and case['as_str'] else paths, files[0]['ship'], progressbar=case['bar'])
    need(not isinstance(r, int), 'refused')
    want = [(t, rec) for f in files for t, rec in zip(f['t'], f['recs'])]
    need(len(r) == len(want), '%d records, %d rows', len(want), len(r))
    col = {c: list(r[c]) for c in ('grav', 'lat', 'lon', 'date_time')}
    for i, (t, rec) in enumerate(want):
        for c in ('grav', 'lat', 'lon'):
            g, w = float(col[c][i]), float(rec[c] or 'nan')
            need(abs(g - w) < 1e-9 * (1 + abs(w)) or (w != w and g != g), 'row %d: %s %r, recorded %s', i, c, col[c][i], rec[c])
        d = col['date_time'][i]
        need(d.tzinfo is not None and abs(G.stamp_us(d) - t) <= 1, 'row %d: date_time %s, recorded %s', i, d, F.dt(t))
    ctx.label('files=%d' % len(files), files[0]['ship'])
    ctx.nontrivial(len({str(w) for w in want}) > 1)


def long_run(case, ctx):
    run(dict(files=G.expand(case), as_str=case['seed'] % 2 == 0, bar=False), ctx)


PARTS = [Part('decode', cases(), run, quick=600, thorough=10000, shards=8),
         Part('long files', G.big_cases('rgs', ('Atlantis', 'NBP')), long_run, quick=24, thorough=600, shards=4),
         Part('day files', None, long_run, shards=2, exhaustive=G.day_cases('rgs', ('Atlantis', 'NBP')))]
