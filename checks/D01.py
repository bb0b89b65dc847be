"""DGS laptop files."""
from hypothesis import strategies as st

from vh import also, formats as F, gravfiles as G
from vh.core import Part, call, need

PROPERTY = 'D01'
RULE = ('A case is one to three laptop files of one ship with arbitrary values in all fields; the oracle is the records that '
        'were written. Non-trivial: some record whose channels are pairwise different.')


@st.composite
def cases(draw):
    ship = draw(st.sampled_from(G.LAPTOP))
    return dict(files=draw(st.lists(G.laptop(ship=ship), min_size=1, max_size=3)), as_str=draw(st.booleans()), bar=draw(st.booleans()))


def check(r, files, what):
    ship = files[0]['ship']
    cols = F.LAPTOP_READ_THOMPSON if ship == 'Thompson' else F.LAPTOP_READ
    want = [(G.laptop_time(f, i), f['recs'][i]) for f in files for i in range(len(f['t']))]
    need(not isinstance(r, int), '%s: refused', what)
    need(len(r) == len(want), '%s: %d records, %d rows', what, len(want), len(r))
    for c in cols:
        need(c in r.columns, '%s: no column %s', what, c)
    col = {c: list(r[c]) for c in cols + ['date_time']}
    for i, (t, rec) in enumerate(want):
        for c in cols:
            g = float(col[c][i])
            if rec[c] is None:
                need(g != g, '%s row %d: blank %s is %r', what, i, c, g)
                continue
            need(abs(g - rec[c]) <= 1e-9 * (1 + abs(rec[c])), '%s row %d: %s is %r, recorded %r', what, i, c, g, rec[c])
        d = col['date_time'][i]
        need(d.tzinfo is not None and abs(G.stamp_us(d) - t) <= 1, '%s row %d: date_time %s, recorded %s', what, i, d, F.dt(t))


def run(case, ctx):
    import shipgrav.io as sgi
    files = case['files']
    ship = files[0]['ship']
    paths = ctx.files('laptop', [G.laptop_text(f) for f in files])
    r = call(sgi.read_dgs_laptop, paths[0] if len(paths) == 1 and case['as_str'] else paths, ship, progressbar=case['bar'])
    check(r, files, ship)
    ctx.label(ship, 'files=%d' % len(files))
    ctx.nontrivial(any(len({rec[c] for c in F.LAPTOP_READ}) >= 9 for f in files for rec in f['recs']))


def long_run(case, ctx):
    run(dict(files=G.expand(case), as_str=case['seed'] % 2 == 0, bar=False), ctx)


PARTS = [Part('decode', cases(), run, quick=500, thorough=10000, shards=8),
         Part('long files', G.big_cases('laptop', G.LAPTOP), long_run, quick=24, thorough=600, shards=4),
         Part('day files', None, long_run, shards=4, exhaustive=G.day_cases('laptop', ('Revelle', 'Thompson', 'Sikuliaq', 'Langseth')))] + also.parts(PROPERTY)
