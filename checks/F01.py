"""Feeds described by yaml."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import formats as F, strat as S
from vh.core import Part, Violation, call, need, quiet, refuses

PROPERTY = 'F01'
RULE = ('A case is a yaml format with one to four tags and a data file mixing their sentences (prefixes, blank and text fields, '
        'final newline or not); the oracle is the list of sentences written. Non-trivial: the wanted tag occurs at least twice '
        'among other tags, or on the last line, or with a blank field.')
TAGS = ['PASHR', 'HEHDT', 'PHZDA', 'PIXSE', 'INROT', 'GPXDR', 'HDT', 'PASHRX', 'ASHR', 'PIXSE2']  # some contain others
KINDS = ['g', 'd', 'f', 'w', 'og', 'of']


@st.composite
def value(draw, kind):
    if kind == 'lit':
        return None  # the literal itself
    if kind == 'w':
        return draw(st.sampled_from(['A', 'V', 'N', 'auto', 'HDT', 'x1', 'T', 'M', 'ok*', 'a b', '1-2', '12:30:01', 'PASHR', '#3', '5%', ' A', 'V ', ' a  b ']))
    if kind == 'd':
        return '%d' % draw(st.integers(-9999, 99999))
    return '%.3f' % draw(S.dec(-999, 99999, 3))


@st.composite
def cases(draw):
    tags = draw(st.lists(st.sampled_from(TAGS), min_size=1, max_size=4, unique=True))
    formats = {}
    for t in tags:
        n = draw(st.integers(1, 9))
        lits = draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True))
        formats[t] = [['TM'[lits.index(i)], 'lit', False] if i in lits else ['%s%d' % (draw(st.sampled_from(['Pitch', 'Roll', 'Heave', 'Heading', 'GPSTime'])), i), draw(st.sampled_from(KINDS)),
                       draw(st.booleans())] for i in range(n)]  # name, kind, has metadata
    prefix = draw(st.sampled_from(['', 'iso', 'date', 'word', 'posix', 'long']))
    t0 = draw(S.instants(step=1000))
    blankcol = draw(st.integers(0, 8))
    lines = []
    for i in range(draw(st.integers(1, 12))):
        tag = draw(st.sampled_from(tags))
        vals = []
        for j, (name, kind, _) in enumerate(formats[tag]):
            blank = draw(st.integers(0, 9)) == 0
            if j == blankcol and draw(st.booleans()):
                blank = True
            vals.append(name if kind == 'lit' else '' if blank else draw(value(kind)))
        lines.append([tag, vals])
    want = draw(st.sampled_from(tags))
    return dict(tags=tags, formats=formats, prefix=prefix, t0=t0, lines=lines, want=want, dollar=draw(st.booleans()),
                final_eol=draw(st.booleans()), eol=draw(st.sampled_from(['\n', '\n', '\r\n'])), noise=draw(st.booleans()),
                check=draw(st.booleans()), trail=draw(st.integers(0, 3)) == 0, top=draw(st.sampled_from(['IXBlue', 'mru', 'Seapath'])))


def pre(case, i):
    d = F.dt(case['t0'] + i * 1_234_000)
    return {'': '', 'iso': d.strftime('%Y-%m-%dT%H:%M:%S.%fZ '), 'date': d.strftime('%m/%d/%Y,%H:%M:%S,'), 'word': 'mru%d ' % i,
            'long': 'vessel network logger, port 3 (bridge), host 10.23.9.%d, message #%d, stamp: ' % (i, 1000 - i),
            'posix': '%.3f ' % (case['t0'] / 1e6 + i)}[case['prefix']]


def yaml_text(case):
    out = ['%s:' % case['top'], "  category: 'device'", "  description: 'generated'", '  format:']
    for t in case['tags']:
        names = [n if k == 'lit' else '{%s:%s}' % (n, k) for n, k, _ in case['formats'][t]]
        out.append("    %s: '$%s,%s%s'" % (t, t, ','.join(names), '*{CheckSum:x}' if case['check'] else ''))
    out.append('  fields:')
    seen = set()
    for t in case['tags']:
        for n, k, meta in case['formats'][t]:
            if meta and n not in seen:
                seen.add(n)
                out += ['    %s:' % n, "      units: 'u%s'" % n, "      description: 'what %s is'" % n]
    if not seen:
        out += ['    Nothing:', "      units: ''"]
    return '\n'.join(out) + '\n', seen


def run(case, ctx):
    import shipgrav.io as sgi
    ytext, meta = yaml_text(case)
    lines, truth = [], []
    for i, (tag, vals) in enumerate(case['lines']):
        if case['noise'] and i % 2:
            lines.append(pre(case, i) + '$GPVTG,1.0,T,,M,0.01,N,0.02,K,D*07')
        s = pre(case, i) + '$' + tag + ',' + ','.join(vals) + ('*%02X' % (i + 16) if case['check'] else '')
        if tag == case['want']:
            truth.append((pre(case, i), vals, '*%02X' % (i + 16) if case['check'] else ''))
        lines.append(s + (' ' if case['trail'] else ''))
    y = ctx.write('feed.yaml', ytext)
    d = ctx.write('data.txt', case['eol'].join(lines) + (case['eol'] if case['final_eol'] else ''))
    tag = ('$' if case['dollar'] else '') + case['want']
    if not truth:
        refuses(sgi.read_other_stuff, AssertionError, y, d, tag)
        ctx.label('tag not in the data')
        return
    r = call(sgi.read_other_stuff, y, d, tag)
    need(isinstance(r, tuple) and len(r) == 2, 'the result is not (data, field info)')
    df, info = r
    need(len(df) == len(truth), '%d sentences of %s in the file, %d rows', len(truth), case['want'], len(df))
    spec = case['formats'][case['want']]
    cols = [n if k == 'lit' else '%s:%s' % (n, k) for n, k, _ in spec]
    if case['check']:
        cols[-1] += '*CheckSum:x'
    for c in cols:
        need(c in df.columns, 'no column %r among %s', c, list(df.columns))
    for i, (p, vals, check) in enumerate(truth):
        for j, c in enumerate(cols):
            g, v = df[c].iloc[i], vals[j]
            if j == len(cols) - 1:
                v = v + check
            blank = v == ''
            if blank:
                need(g is None or g == '' or pd.isna(g) or (case['trail'] and str(g).strip() == ''), 'row %d: blank field %s came back as %r', i, c, g)
                continue
            try:
                num = float(v)
            except ValueError:
                num = None
            if num is None:
                last = j == len(cols) - 1  # (blanks at the end of a line do not count)
                need(str(g) == v or (last and str(g) == v.rstrip()), 'row %d: %s is %r, the sentence says %r', i, c, g, v)
            else:
                need(not isinstance(g, str) and abs(float(g) - num) <= 1e-9 * (1 + abs(num)), 'row %d: %s is %r, the sentence says the number %s', i, c, g, v)
        g = df['mystery'].iloc[i]
        g = '' if g is None or (not isinstance(g, str) and pd.isna(g)) else str(g)
        need(g.strip() == p.strip() or (case['prefix'] == 'posix' and abs(float(g) - float(p)) < 1e-6), 'row %d: text in front of the tag is %r instead of %r', i, df['mystery'].iloc[i], p)
    for (n, k, _), c in zip(spec, cols):
        if k == 'lit':
            continue
        if n in meta:
            need(c in info and info[c]['units'] == 'u' + n and info[c]['description'] == 'what %s is' % n, 'field info of %s is %r', c, info.get(c))
        else:
            need(c not in info, 'field info invented for %s: %r', c, info.get(c))
    ctx.label('prefix=' + case['prefix'], 'last line' if case['lines'][-1][0] == case['want'] else 'not last')
    if any('' in v for _, v, _ in truth):
        ctx.label('blank field')
    ctx.nontrivial((len(truth) > 1 and len(case['lines']) > len(truth)) or case['lines'][-1][0] == case['want'] or any('' in v for _, v, _ in truth))


def missing(case, ctx):
    import shipgrav.io as sgi
    ytext, _ = yaml_text(case)
    y = ctx.write('feed.yaml', ytext)
    other = next(t for t in TAGS + ['ZZZZZ'] if t not in case['tags'])
    d = ctx.write('data.txt', '\n'.join('$%s,%s' % (t, ','.join(v)) for t, v in case['lines'] + [[other, ['1']]]) + '\n')
    refuses(sgi.read_other_stuff, AssertionError, y, d, ('$' if case['dollar'] else '') + other)
    have = {t for t, _ in case['lines']}
    for t in case['tags']:
        if t not in have:
            refuses(sgi.read_other_stuff, AssertionError, y, d, t)
    refuses(sgi.read_other_stuff, AssertionError, y, ctx.write('empty.txt', ''), case['want'])
    ctx.nontrivial(len(case['tags']) > 1)


GGA = '''IXBlue:
  category: 'device'
  format:
    PHGGA: '${:.2}GGA,{GPSTime:g},{Latitude:nlat_dir},{Longitude:nlat_dir},{FixQuality:d}*{CheckSum:x}'
  fields:
    GPSTime:
      units: ""
'''


def two_fields(case, ctx):
    """Formats with a field that spans two commas (known finding)."""
    import shipgrav.io as sgi
    y = ctx.write('gga.yaml', GGA)
    d = ctx.write('gga.txt', '$PHGGA,%06d.00,1234.500,N,02345.600,W,%d*11\n' % (case['s'], case['q']) * 2)
    ctx.nontrivial()
    with quiet():
        try:
            df, _ = sgi.read_other_stuff(y, d, 'PHGGA')
        except ValueError as e:
            if 'columns passed' in str(e):
                ctx.known('two-field-formats')
                return
            raise Violation('read_other_stuff raised %r' % e)
    need(len(df) == 2 and float(df['GPSTime:g'].iloc[0]) == case['s'], 'PHGGA came back as %s', df)


def long_feed(case, ctx):
    c = dict(case['base'])
    rng = np.random.default_rng(case['seed'])
    pool = c['lines'] + [[t, [n if k == 'lit' else '1' if k != 'w' else 'A' for n, k, _ in c['formats'][t]]] for t in c['tags']]
    c['lines'] = [pool[int(k)] for k in rng.integers(0, len(pool), case['n'])]
    run(c, ctx)


PARTS = [Part('long files', st.fixed_dictionaries(dict(base=cases(), seed=S.seeds, n=st.sampled_from([200, 1500]))), long_feed, quick=12, thorough=300, shards=4),
         Part('day files', st.fixed_dictionaries(dict(base=cases(), seed=S.seeds, n=st.just(90_000))), long_feed, quick=1, thorough=20, shards=2),
         Part('feeds', cases(), run, quick=600, thorough=10000, shards=6),
         Part('refusals', cases(), missing, quick=100, thorough=2000, shards=2),
         Part('two-field formats', None, two_fields, shards=1, exhaustive=lambda: [dict(s=s, q=2) for s in (1, 120000, 235959)])]
