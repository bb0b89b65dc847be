"""BGM serial files."""
import numpy as np
from hypothesis import strategies as st

from vh import also, formats as F, gravfiles as G
from vh.core import Part, call, need

PROPERTY = 'B01'
RULE = ('A case is one to four BGM serial files of one ship rendered from (time, counts) records; the oracle is the records. '
        'Non-trivial: more than one record, some stamp with a non-zero fraction and two different counts.')


@st.composite
def cases(draw):
    ship = draw(st.sampled_from(G.BGM))
    return dict(files=draw(st.lists(G.bgm(ship=ship), min_size=1, max_size=4)), as_str=draw(st.booleans()),
                scale=draw(st.sampled_from([None, None, 4.9, 1.0])), bar=draw(st.booleans()))


def run(case, ctx):
    import shipgrav.io as sgi
    files = case['files']
    ship = files[0]['ship']
    paths = ctx.files('bgm', [G.bgm_text(f) for f in files])
    kw = {} if case['scale'] is None else {'scale': case['scale']}
    r = call(sgi.read_bgm_raw, paths[0] if len(paths) == 1 and case['as_str'] else paths, ship, progressbar=case['bar'], **kw)
    need(not isinstance(r, int), 'refused')
    want = [(F.bgm_time(ship, t, f.get('digits', 3)), c) for f in files for t, c in zip(f['t'], f['counts'])]
    need(len(r) == len(want), '%s: %d records, %d rows', ship, len(want), len(r))
    sc = case['scale'] or F.BGM_SCALE[ship]
    counts, rg, dt = list(r['counts']), list(r['rgrav']), list(r['date_time'])
    for i, (t, c) in enumerate(want):
        need(counts[i] == c, '%s row %d: counts %r, recorded %r', ship, i, counts[i], c)
        need(abs(rg[i] - sc * c) <= 1e-9 * (1 + abs(sc * c)), '%s row %d: rgrav %r, counts x scale %r', ship, i, rg[i], sc * c)
        need(dt[i].tzinfo is not None, '%s row %d: date_time %r has no time zone', ship, i, dt[i])
        need(abs(G.stamp_us(dt[i]) - t) <= 1, '%s row %d: date_time %s, recorded %s', ship, i, dt[i], F.dt(t))
    ctx.label(ship, 'files=%d' % len(files))
    ctx.nontrivial(len(want) > 1 and any(t % 1_000_000 for t, _ in want) and len({c for _, c in want}) > 1)


def long_run(case, ctx):
    run(dict(files=G.expand(case), as_str=case['seed'] % 2 == 0, scale=None, bar=False), ctx)


PARTS = [Part('decode', cases(), run, quick=800, thorough=15000, shards=8),
         Part('long files', G.big_cases('bgm', G.BGM), long_run, quick=24, thorough=600, shards=4),
         Part('day files', None, long_run, shards=4, exhaustive=G.day_cases('bgm', G.BGM))] + also.parts(PROPERTY)
