"""ini to toml."""
import os

from hypothesis import strategies as st

from vh import also, strat as S
from vh.core import Part, call, need

PROPERTY = 'U03'
RULE = ('A case is a list of ini lines (sections, key = value of every kind, comments, blanks, tabs, talker keys with $) with the '
        'meaning each has; the oracle compares what tomli reads from the converted file. Non-trivial: three kinds of value.')
WORDS = ['AT1M', 'COM1', 'GPGGA', 'Tilt Platform', 'lat lon', '19200 8N1', 'a', 'R/V Ride', '2023-06-16x', 'C:\\data\\dgs', '3.0.1',
         'k=v', 'x = y = z', 'TRUENORTH', 'not FALSE', 'he said "go"', '5"', "it's", '1e', 'e5', '--', '0x', '12:30', 'true north',
         'a,b,c', '%d', '{x}', 'caf\u00e9', '50%', '\\', 'ab\\n', 'cost $5', 'a [b] {c}', '$GPGGA', '<x>', '10d', '5F', '1.5f', '0x1F', '0b11', '42dB', '3.5 V', '1,5', '1 000', '1e3x', '12/5', '+', '1-2', '100%', '5.0.', 'nano', 'information', 'none', 'True', 'on', '~|^`']
NUMS = ['0', '1', '-1', '42', '3.14', '-0.5', '1e5', '1.5E-3', '+7', '100000', '.5', '5.', '-.25', '007', '0.0', '1E3', '00.5', '8388607',
        '-2.5e+3', '1e-20', '6.02E23', '4e-07', '1e-300', '2.5E-8', '123456789.987654321', '0.1e-3', '-0', '.000012', '1.e2', '.12345678901234', '-0012.3456789012345', '98765432109876.', '.1e-17', '001.000000000000002', '+.30000000000000004', 'nan', 'NaN', 'inf', '-Infinity']
COMMENT = ['', '', '', ' // gain of the meter', ' # checked', ' //', '\t// see manual', ' // a = b', ' // "quoted"']


@st.composite
def cases(draw):
    out = []
    used = set()
    sections = draw(st.integers(0, 3))
    marks = sorted(draw(st.lists(st.integers(0, 14), min_size=sections, max_size=sections)))
    for i in range(draw(st.integers(1, 15))):
        for m in [k for k in marks if k == i]:
            out.append(['section', 'sec%d' % len(out), draw(st.sampled_from(['', ' # about', '']))])
        k = draw(st.sampled_from(['num', 'num', 'bool', 'word', 'word', 'quoted', 'comment', 'blank', 'text', 'empty']))
        key = '%s%d' % (draw(st.sampled_from(['gain', 'Offset_', 'port-', 'TRUEval', 'K'])), i)
        eq = draw(st.sampled_from(['=', ' = ', ' =', '= ', '\t=\t', '  =  ']))
        com = draw(st.sampled_from(COMMENT))
        if k == 'num':
            v = draw(st.one_of(st.sampled_from(NUMS), st.integers(-10 ** 6, 10 ** 6).map(str), S.dec(-1000, 1000, 4).map(repr)))
        elif k == 'bool':
            v = draw(st.sampled_from(['TRUE', 'FALSE', 'true', 'false']))
        elif k == 'word':
            v = draw(st.sampled_from(WORDS))
        elif k == 'text':
            v = draw(st.text('abcXYZ019 _-+.:;,!?*@&()[]{}$<>\\="\'', min_size=1, max_size=12)).strip()
            if v.startswith('"') or v == '':
                v = 'v' + v
            if is_num(v):
                k = 'num'
        elif k == 'quoted':
            v = '"%s"' % draw(st.sampled_from(['GPGGA', '', 'http://a.b/c', 'TRUE', 'a # b', 'x = y', '12', 'a\\\\b', 'two words', '[x] $y', '{k = 1}', 'it is // here']))
        elif k == 'empty':
            v = ''
        else:
            v = draw(st.sampled_from(['// a comment', '# one = two', '//', '  // indented', '\t# tab', '// TRUE = FALSE'])) if k == 'comment' \
                else draw(st.sampled_from(['', '   ', '\t']))
            out.append([k, v])
            continue
        if k in ('word', 'text') and '"' in v and '"' in com:
            com = ''  # (which quotes pair up is anybody's guess)
        # (a line that starts with $ loses all its $)
        out.append([k, key, eq, v, com, draw(st.sampled_from(['', '', '', '  '] + ['$'] * ('$' not in v)))])
    return dict(lines=out, name=draw(st.sampled_from(['dgs.ini', 'DGS_meter.ini', 'ini.ini', 'mini.ini', 'a.b.ini', 'nii.ini'])),
                final=draw(st.booleans()), eol=draw(st.sampled_from(['\n', '\n', '\r\n'])))


@st.composite
def long_cases(draw):
    """Several files' lines one after the other, section by section."""
    lines = []
    for i in range(draw(st.integers(4, 20))):
        c = draw(cases())
        lines += ([['section', 'part%d' % i, '']] if i else []) + [[ln[0], 'p%d%s' % (i, ln[1]), ln[2]] if ln[0] == 'section' else ln for ln in c['lines']]
    return dict(c, lines=lines)


def is_num(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def run(case, ctx):
    from shipgrav.utils import clean_ini_to_toml
    try:
        import tomllib as tm
    except ImportError:
        import tomli as tm
    text, want, cur = [], {}, None
    cur = want
    for ln in case['lines']:
        if ln[0] == 'section':
            text.append('[%s]%s' % (ln[1], ln[2]))
            cur = want.setdefault(ln[1], {})
        elif ln[0] in ('comment', 'blank'):
            text.append(ln[1])
        else:
            kind, key, eq, v, com, dollar = ln
            text.append(dollar + key + eq + v + com)
            cur[key] = (kind, v)
    body = case['eol'].join(text) + (case['eol'] if case['final'] else '')
    p = ctx.write(case['name'], body)
    out = call(clean_ini_to_toml, p)
    need(out == p[:-3] + 'toml' and os.path.exists(out), 'the path returned is %r for %r', out, p)
    need(open(p, 'rb').read() == body.encode(), 'the ini file was changed')
    need(sorted(os.listdir(ctx.dir)) == sorted([case['name'], case['name'][:-3] + 'toml']), 'files %s appeared', os.listdir(ctx.dir))
    data = open(out, encoding='utf-8').read()
    try:
        got = tm.loads(data)
    except Exception as e:
        need(False, 'the output is not TOML: %s\n%s', e, data)

    def same(w, g, where):
        need(sorted(w) == sorted(g), '%s: keys %s, the ini file has %s', where or 'top level', sorted(g), sorted(w))
        for k, v in w.items():
            if isinstance(v, dict):
                need(isinstance(g[k], dict), '%s is not a section', k)
                same(v, g[k], k)
                continue
            kind, t = v
            x = g[k]
            if kind == 'bool':
                need(x is (t.lower() == 'true'), '%s: %r became %r', k, t, x)
            elif kind == 'num':
                need(isinstance(x, (int, float)) and not isinstance(x, bool) and (float(x) == float(t) or x != x and t.lower() == 'nan'), '%s: %s became %r', k, t, x)
            elif kind == 'quoted':
                need(x == tm.loads('v = ' + t)['v'], '%s: %s became %r', k, t, x)
            else:
                need(isinstance(x, str) and x == t.replace('\t', '  ').strip(), '%s: text %r became %r', k, t, x)

    same(want, got, '')
    kinds = {ln[0] for ln in case['lines']}
    ctx.label(*kinds)
    ctx.nontrivial(len(kinds & {'num', 'bool', 'word', 'text', 'quoted', 'empty'}) > 2)


PARTS = [Part('long files', long_cases(), run, quick=20, thorough=1000, shards=2), Part('convert', cases(), run, quick=900, thorough=20000, shards=8)] + also.parts(PROPERTY)
