"""What the checks of single functions share with E02, E06 and E07: holders, the reach of a sample, pieces of a record, histories."""
from hypothesis import strategies as st

from vh.core import Part

# property: (functions in E06 and E07, kinds of calls in E02)
OF = {
    'G01': (['tide'], ['tide']),
    'G02': (['eotvos'], ['eotvos']),
    'G03': (['free air', 'normal'], ['fa', 'wgs']),
    'G04': (['coupling'], ['ccp']),
    'G05': (['coupling'], ['ccp']),
    'G06': (['up-vectors'], ['up']),
    'G07': (['first difference', 'second difference'], ['diff']),
    'M01': (['profile'], ['g1']),
    'M02': (['grid', 'folded grid'], ['g2']),
    'M03': (['layer'], ['layer']),
    'M04': (['half-space', 'half-space by age', 'half-space isotherm', 'half-space isotherm by age'], ['half', 'zhalf']),
    'M05': (['plate', 'plate by age'], ['plate']),
    'M06': (['plate isotherms'], ['zplate']),
    'M07': (['thickness'], ['crust']),
    'M08': (['recovered gravity'], ['crust']),
    'V01': (['velocities'], ['EN']),
    'V02': (['course', 'rotation'], ['course', 'rotate']),
    'U02': (['filter'], ['gauss']),
    'U01': ([], ['bits']),
    'U03': ([], ['ini']),
    'N01': ([], ['nav']),
    'N04': ([], ['other']),
    'B01': ([], ['bgm', 'rgs']),
    'D01': ([], ['laptop']),
    'D03': ([], ['raw']),
}


@st.composite
def histories(draw, kinds):
    """Calls of one function with several sets of arguments (and perhaps another function in between), in some order."""
    from checks import E02
    k = draw(st.sampled_from(kinds))
    s = draw(st.integers(0, 41))
    pool = [[k, s, v] for v in draw(st.lists(st.integers(0, 16), min_size=2, max_size=4, unique=True))]
    if draw(st.booleans()):
        pool.append([draw(st.sampled_from(E02.KINDS)), draw(st.integers(0, 41)), 0])
    return dict(pool=pool, history=draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.booleans()).map(list), min_size=2, max_size=8)))


def parts(pid):
    from checks import E02, E06, E07
    names, kinds = OF[pid]
    out = [Part('history', histories(kinds), E02.run, quick=20, thorough=600, shards=2)]
    if names:
        out += [Part('holders', E06.cases(names), E06.run, quick=60, thorough=1500, shards=2),
                Part('every holder', None, E06.run, shards=2, exhaustive=lambda: [c for c in E06.every() if c['f'] in names])]
    reach = [f for f in names if f in E07.FUNCTIONS]
    if reach:
        out += [Part('one sample changed', E07.cases(reach), E07.change, quick=80, thorough=2000, shards=2),
                Part('a piece cut out', E07.cuts(reach), E07.cut, quick=40, thorough=1000, shards=2),
                Part('day record', None, E07.cut, shards=1, exhaustive=lambda: [c for c in E07.days() if c['f'] in reach])]
    return out
