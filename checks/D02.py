"""Corrupt lines in Langseth laptop files."""
import numpy as np
from hypothesis import strategies as st

from vh import formats as F, gravfiles as G, strat as S
from vh.core import Part, call, need
from checks import D01

PROPERTY = 'D02'
RULE = ('A case is a Langseth laptop file: good records (with or without logger prefix) and corrupt lines of several kinds in '
        'any arrangement; the oracle keeps exactly the good records. Non-trivial: at least one corrupt and one good line.')

KINDS = ['truncated', 'merged', 'extra', 'blank', 'junk', 'prefix only', 'half prefix', 'bytes', 'missing', 'commas', 'utf8', 'comma at the end', 'one short']


@st.composite
def cases(draw):
    n = draw(st.integers(0, 5))
    ts = G.times(draw, max(n, 1), 10_000)
    good = [dict(t=ts[i], rec=draw(G.laptop_rec()), prefix=draw(st.sampled_from([True, True, False])), sep=draw(st.sampled_from(['\t', '\t', ' ', '  '])),
                 lead=draw(st.sampled_from(['', '', ' ', '\t']))) for i in range(n)]
    bad = [dict(kind=draw(st.sampled_from(KINDS)), at=draw(st.integers(0, n)), cut=draw(st.integers(0, 24)), rec=draw(G.laptop_rec()),
                t=ts[0]) for _ in range(draw(st.integers(0 if n else 1, 4)))]
    return dict(good=good, bad=bad, final_eol=draw(st.booleans()), eol=draw(st.sampled_from(['\n', '\n', '\r\n'])),
                second=draw(st.booleans()))


def corrupt(b):
    f = F.laptop_fields(b['rec'], b['t'])
    pre = F.laptop_line('Langseth', b['rec'], b['t'], b['t']).split('\t')
    head = pre[0] + '\t' + pre[1] + '\t'
    k = b['kind']
    if k == 'truncated':
        return (head + ','.join(f[:b['cut'] + 1])).encode()
    if k == 'missing':
        return (head + ','.join(f[:b['cut']] + f[b['cut'] + 1:])).encode()
    if k == 'merged':
        return (head + ','.join(f[:b['cut'] + 2]) + head + ','.join(f)).encode()
    if k == 'extra':
        return (head + ','.join(f[:b['cut']] + ['0.5'] + f[b['cut']:])).encode()
    if k == 'blank':
        return b'  ' if b['cut'] % 2 else b''
    if k == 'junk':
        return b'%%% logger restarted at 12:00, please ignore %%%'
    if k == 'prefix only':
        return head.rstrip('\t').encode()
    if k == 'half prefix':
        return b'dgsdata'
    if k == 'bytes':
        return b'dgsdata\t\xff\xfe\x00\x9c,\xe9,,\x80'
    if k == 'comma at the end':
        return (head + ','.join(f) + ',' * (1 + b['cut'] % 3)).encode()
    if k == 'one short':
        return (head + ','.join(f[:-1]) + ',' * (2 * (b['cut'] % 2))).encode()
    if k == 'utf8':
        return 'dgsdata\t2025:254:00:00:00.9100\tn\u00e3o,\u00e9'.encode()
    return b',' * (b['cut'] if b['cut'] != 25 else 3)


def text(case):
    lines, at = [], {}
    for b in case['bad']:
        at.setdefault(b['at'], []).append(b)
    for i in range(len(case['good']) + 1):
        lines += [corrupt(b) for b in at.get(i, [])]
        if i < len(case['good']):
            g = case['good'][i]
            s = F.laptop_line('Langseth', g['rec'], g['t'], g['t'])
            lines.append((g['lead'] + (s.replace('\t', g.get('sep', '\t')) if g['prefix'] else s.split('\t')[2])).encode())
    eol = case['eol'].encode()
    return eol.join(lines) + (eol if case['final_eol'] else b'')


def run(case, ctx):
    import shipgrav.io as sgi
    p = ctx.write('mgl', text(case))
    good = dict(ship='Langseth', t=[g['t'] for g in case['good']], recs=[g['rec'] for g in case['good']], log=0)
    paths, files = [p], [good]
    if case['second']:  # a clean file after it
        other = dict(ship='Langseth', t=[1_757_548_800_910_000], log=0, recs=[{n: float(k) for k, n in enumerate(F.LAPTOP)}], eol='\n')
        other['recs'][0].update(status=7, checksum=8, numline=9)
        paths.append(ctx.write('clean', G.laptop_text(other)))
        files.append(other)
    r = call(sgi.read_dgs_laptop, paths, 'Langseth', progressbar=False)
    if not any(f['t'] for f in files):
        need(not isinstance(r, int) and len(r) == 0, 'a file without a good line gave %s', r)
    else:
        D01.check(r, files, 'Langseth with %d corrupt lines' % len(case['bad']))
        for c in F.LAPTOP_READ + ['date_time']:
            need(r[c].dtype.kind in ('M' if c == 'date_time' else 'i' if c == 'status' else 'if'), 'with %d corrupt lines and %d good ones, column %s has type %s', len(case['bad']), len(r), c, r[c].dtype)
    for b in case['bad']:
        ctx.label(b['kind'])
    ctx.nontrivial(case['bad'] and case['good'])


def long_run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    f = G.big('laptop', 'Langseth', case['seed'], case['n'])
    share = rng.random(case['n']) < .9
    good = [dict(t=t, rec=r, prefix=bool(p), lead='') for t, r, p in zip(f['t'], f['recs'], share)]
    bad = [dict(kind=KINDS[int(rng.integers(0, len(KINDS)))], at=int(rng.integers(0, case['n'] + 1)), cut=int(rng.integers(0, 25)), rec=f['recs'][0], t=f['t'][0])
           for _ in range(case['bad'])]
    run(dict(good=good, bad=bad, final_eol=True, eol='\n', second=case['seed'] % 2 == 0), ctx)


PARTS = [Part('corruption', cases(), run, quick=700, thorough=12000, shards=8),
         Part('long files', st.fixed_dictionaries(dict(seed=S.seeds, n=st.sampled_from([100, 800, 3000]), bad=st.sampled_from([1, 20, 150]))), long_run, quick=12, thorough=300, shards=4),
         Part('day files', st.fixed_dictionaries(dict(seed=S.seeds, n=st.just(90_001), bad=st.sampled_from([1, 300]))), long_run, quick=1, thorough=20, shards=2)]
