"""Reading a list of files is concatenation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import gravfiles as G
from vh.core import Part, call, need

PROPERTY = 'D04'
RULE = ('A case is a reader, a ship, two to four generated files and a list of them (in any order, with repeats); the oracle is '
        'the concatenation of reading each path alone. Non-trivial: at least two different files in the list.')
READERS = dict(rgs=(G.rgs, G.rgs_text, ('Atlantis', 'NBP')), bgm=(G.bgm, G.bgm_text, G.BGM),
               laptop=(G.laptop, G.laptop_text, G.LAPTOP), raw=(G.raw, G.raw_text, G.RAWSHIPS))


@st.composite
def cases(draw):
    reader = draw(st.sampled_from(sorted(READERS)))
    gen, _, ships = READERS[reader]
    ship = draw(st.sampled_from(ships))
    files = draw(st.lists(gen(nmax=4, ship=ship), min_size=2, max_size=4))
    for f in files:
        for k in ('synced', 'prefix', 'scale'):
            if k in f:
                f[k] = files[0][k]
    order = draw(st.lists(st.integers(0, len(files) - 1), min_size=1, max_size=5))
    if (reader, ship) != ('bgm', 'Langseth') and (reader != 'raw' or ship in ('Thompson', 'Sikuliaq')) and draw(st.integers(0, 3)) == 0:
        # a file without a record, as loggers leave when they restart (the other readers refuse it)
        files.append(dict(files[0], t=[], recs=[], counts=[]))
        for at in draw(st.lists(st.integers(0, len(order)), min_size=1, max_size=2)):
            order.insert(at, len(files) - 1)
    return dict(reader=reader, ship=ship, files=files, order=order, tup=draw(st.booleans()))


def run(case, ctx):
    import shipgrav.io as sgi
    reader, ship = case['reader'], case['ship']
    text = READERS[reader][1]
    paths = ctx.files('meter', [text(f) for f in case['files']])
    lst = [paths[k] for k in case['order']]

    def read(p):
        if reader == 'rgs':
            return call(sgi.read_bgm_rgs, p, ship, progressbar=False)
        if reader == 'bgm':
            return call(sgi.read_bgm_raw, p, ship, progressbar=False)
        if reader == 'laptop':
            return call(sgi.read_dgs_laptop, p, ship, progressbar=False)
        return call(sgi.read_dgs_raw, p, ship, scale_ccp=case['files'][0]['scale'], progressbar=False)

    arg = tuple(lst) if case['tup'] else list(lst)
    whole = read(arg)
    need(list(arg) == lst, 'the list of paths was changed')
    alone = {k: read(paths[k]) for k in set(case['order'])}
    n = sum(len(alone[k]) for k in case['order'])
    need(len(whole) == n, '%s %s: %d rows from the list, %d one by one', reader, ship, len(whole), n)
    need(list(whole.index) == list(range(n)), '%s %s: index %s is not 0..%d', reader, ship, list(whole.index), n - 1)
    for k in set(case['order']):
        need(len(alone[k]) == len(case['files'][k]['t']), '%s %s: file of %d records gave %d rows', reader, ship,
             len(case['files'][k]['t']), len(alone[k]))
        need(sorted(alone[k].columns) == sorted(whole.columns), '%s %s: columns differ: %s / %s', reader, ship,
             sorted(alone[k].columns), sorted(whole.columns))
    full = [k for k in case['order'] if len(alone[k])]
    if full:
        for c in whole.columns:  # numbers stay numbers and dates dates, so that they can be computed with
            kinds = {alone[k][c].dtype.kind for k in full}
            need(kinds != {'i'} or whole[c].dtype.kind == 'i', '%s %s: column %s of integers became %s', reader, ship, c, whole[c].dtype)
            need(not kinds <= set('if') or whole[c].dtype.kind in 'if', '%s %s: column %s of numbers became %s', reader, ship, c, whole[c].dtype)
            need(kinds != {'M'} or whole[c].dtype.kind == 'M', '%s %s: column %s of dates became %s', reader, ship, c, whole[c].dtype)
    at = 0
    for k in case['order']:
        a = alone[k]
        for c in a.columns:
            xs, ys = list(whole[c])[at:at + len(a)], list(a[c])
            for i, (x, y) in enumerate(zip(xs, ys)):
                same = (x == y) or (pd.isna(x) and pd.isna(y))
                need(bool(same), '%s %s: row %d column %s is %r in the list, %r alone', reader, ship, at + i, c, x, y)
        at += len(a)
    ctx.label(reader, ship, *(['empty file'] if len(full) < len(case['order']) else []))
    ctx.nontrivial(len(set(case['order'])) > 1)


@st.composite
def long_cases(draw):
    reader = draw(st.sampled_from(sorted(READERS)))
    return draw(G.big_cases(reader, READERS[reader][2]))


def long_run(case, ctx):
    files = G.expand(case)
    order = [int(v) for v in np.random.default_rng(case['seed']).permutation(len(files))]
    run(dict(reader=case['reader'], ship=case['ship'], files=files, order=order if len(order) > 1 else [0, 0], tup=case['seed'] % 2 == 0), ctx)


PARTS = [Part('concatenation', cases(), run, quick=500, thorough=8000, shards=8),
         Part('long lists', long_cases(), long_run, quick=24, thorough=600, shards=4)]
