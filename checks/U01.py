"""DGS status words."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import also
from vh.core import Part, call, need, refuses

PROPERTY = 'U01'
RULE = ('All 65536 words are decoded as scalars; DataFrame cases have any number of rows, index, key name and further columns. '
        'The oracle is the bit arithmetic on the word. Non-trivial: the word has both set and clear bits / the frame has two '
        'different words.')
FLAGS = ['clamp status', 'GPSsync', 'reserved', 'feedback', 'R1', 'R2', 'ADlock', 'ack host', 'NavMod1', 'NavMod2',
         'dgs1_trouble', 'dgs2_trouble', 'GPStime', 'ADsat', 'nemo1', 'nemo2']


def bits(w):
    return {f: '1' if w & (1 << (15 - i)) else '0' for i, f in enumerate(FLAGS)}


def scalar(case, ctx):
    from shipgrav.utils import decode_dgs_status_bits
    for w in range(case['lo'], case['lo'] + case['n']):
        r = call(decode_dgs_status_bits, w)
        need(isinstance(r, dict), 'word %d decodes to %s', w, type(r))
        need(list(r) == FLAGS, 'word %d: flags %s, documented %s', w, list(r), FLAGS)
        got = {f: str(v) for f, v in r.items()}
        need(got == bits(w), 'word %d (%s) decodes to %s', w, format(w, '016b'), ''.join(got.values()))
    ctx.nontrivial()


@st.composite
def frames(draw):
    n = draw(st.integers(1, 30))
    words = draw(st.lists(st.one_of(st.integers(0, 65535), st.integers(0, 15).map(lambda k: 1 << k), st.sampled_from([0, 65535])), min_size=n, max_size=n))
    others = draw(st.lists(st.sampled_from(['rgrav', 've', 'vcc', 'lat', 'date_time', 'al']), max_size=4, unique=True))
    key = draw(st.sampled_from(['status', 'status', 'stat', 'STATUS']))
    if key != 'status' and draw(st.booleans()):
        others.append('status')  # not the one to decode
    return dict(words=words, others=others, at=draw(st.integers(0, len(others))), key=key,
                index=draw(st.sampled_from(['range', 'reversed', 'text', 'repeated', 'filtered'])), dflt=draw(st.booleans()))


def frame(case, ctx):
    from shipgrav.utils import decode_dgs_status_bits
    words, n = case['words'], len(case['words'])
    data = {c: [i * 3 + k for i in range(n)] if c == 'status' else [float(i * 3 + k) for i in range(n)] for k, c in enumerate(case['others'])}
    cols = list(case['others'])
    cols.insert(case['at'], case['key'])
    data[case['key']] = words
    index = dict(range=range(n), reversed=range(n - 1, -1, -1), text=['r%d' % i for i in range(n)],
                 repeated=[i // 2 for i in range(n)], filtered=range(5, 5 + 3 * n, 3))[case['index']]
    df = pd.DataFrame(data, columns=cols, index=list(index))
    before = df.copy(deep=True)
    args = (df,) if case['key'] == 'status' and case['dflt'] else (df, case['key'])
    r = call(decode_dgs_status_bits, *args)
    need(type(r) is pd.DataFrame, 'a DataFrame decodes to %s', type(r))
    need(sorted(r.columns) == sorted(cols + FLAGS), 'columns are %s', list(r.columns))
    need(len(r) == n and list(r.index) == list(before.index), 'rows or index changed: %s', list(r.index))
    need([c for c in r.columns if c in FLAGS] == FLAGS, 'flag columns are in order %s', [c for c in r.columns if c in FLAGS])
    need([c for c in r.columns if c in cols] == cols, 'existing columns are in order %s', [c for c in r.columns if c in cols])
    for c in cols:
        need(list(r[c]) == list(before[c]), 'column %s changed', c)
    for i, w in enumerate(words):
        b = bits(w)
        one = call(decode_dgs_status_bits, w)
        for f in FLAGS:
            need(str(r[f].iloc[i]) == b[f] == str(one[f]), 'row %d word %d: %s is %r', i, w, f, r[f].iloc[i])
    ctx.label(case['index'])
    ctx.nontrivial(len(set(words)) > 1)


@st.composite
def long_frames(draw):
    return dict(seed=draw(st.integers(0, 2 ** 31 - 1)), n=draw(st.sampled_from([500, 3000, 20000])), runs=draw(st.booleans()), index=draw(st.sampled_from(['range', 'filtered'])))


def long_frame(case, ctx):
    """A record of hours: each row by its own word."""
    from shipgrav.utils import decode_dgs_status_bits
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    words = rng.integers(0, 65536, n)
    if case['runs']:  # words stay the same for minutes
        words = np.repeat(words, 60)[:n]
    df = pd.DataFrame({'rgrav': np.arange(n) * 1., 'status': words}, index=np.arange(n) * (3 if case['index'] == 'filtered' else 1))
    r = call(decode_dgs_status_bits, df.copy())
    need(sorted(r.columns) == sorted(['rgrav', 'status'] + FLAGS) and len(r) == n and (r.index == df.index).all(), 'columns %s, %d rows of %d', list(r.columns), len(r), n)
    need((r['rgrav'].values == df['rgrav'].values).all() and (r['status'].values == words).all(), 'the other columns changed')
    for i, f in enumerate(FLAGS):
        got, want = r[f].astype(str).values, np.where(words & (1 << (15 - i)), '1', '0')
        bad = np.flatnonzero(got != want)
        need(len(bad) == 0, 'row %s of %d, word %s: %s is %s', bad[:1], n, words[bad[:1]], f, got[bad[:1]])
    ctx.label(case['index'])
    ctx.nontrivial()


def refuse(case, ctx):
    from shipgrav.utils import decode_dgs_status_bits
    refuses(decode_dgs_status_bits, AssertionError, {'s': '330', 'f': 330.0, 'l': [330], 'n': None}[case['k']])
    ctx.nontrivial()


PARTS = [Part('all words', None, scalar, shards=8, exhaustive=lambda: [dict(lo=k * 1024, n=1024) for k in range(64)]),
         Part('frames', frames(), frame, quick=300, thorough=5000, shards=4),
         Part('long frames', long_frames(), long_frame, quick=12, thorough=300, shards=4),
         Part('other types', None, refuse, shards=1, exhaustive=lambda: [dict(k=k) for k in 'sfln'])] + also.parts(PROPERTY)
