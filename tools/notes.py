"""The wording of MANIFEST.json's technique and level_note, per property."""
PB = 'property-based testing (Hypothesis): '
TECH = dict(
    N01=PB + 'nav files rendered from random truth in each ship format, compared with that truth',
    N02=PB + 'random file lists against a first-wins dictionary merge model',
    N03=PB + 'random tracks with crossings and gaps against the unwrapped truth',
    N04=PB + 'ship names x readers x overrides against the documented support table',
    B01=PB + 'BGM files rendered from random records, compared with the records',
    B02=PB + 'RGS files rendered from random records, compared with the records',
    D01=PB + 'laptop files rendered from random records, compared with the records',
    D02=PB + 'fault injection: corrupt lines among good ones, compared with the good ones',
    D03=PB + 'serial files rendered from random records, compared with the records',
    D04=PB + 'metamorphic: list reading against concatenation of single readings',
    F01=PB + 'random yaml formats and feeds, compared with the sentences written',
    U01='exhaustive 65536 words and ' + PB + 'random frames against bit arithmetic',
    U02=PB + 'random filters and series against direct convolution and FIR laws',
    U03=PB + 'random ini texts with known meaning against a TOML parser',
    U04='stateful ' + PB + 'random event histories against a state-machine model',
    V01=PB + 'random analytic tracks against complex-step geodesy',
    V02=PB + 'random vectors against polar identities and rotation laws',
    G01=PB + 'random instants and places against an independent Longman evaluation and ephemeris',
    G02=PB + 'random tracks against inertial acceleration by automatic differentiation',
    G03=PB + "random latitudes and heights against Somigliana's formula",
    G04=PB + 'planted coefficients recovered from random monitors',
    G05=PB + 'random gap patterns against per-segment reference processing',
    G06=PB + 'random acceleration histories against an explicit recursion, and laws',
    G07=PB + 'random polynomials against exact derivatives',
    M01=PB + 'random profiles against explicit Parker sums and space-domain integration',
    M02=PB + 'random grids against explicit Parker sums, point masses and symmetry laws',
    M03=PB + 'random density grids against the slab transfer function and symmetry laws',
    M04=PB + 'random parameters against closed forms and inversion',
    M05=PB + 'random parameters against the mode sum, boundary values and heat equation',
    M06=PB + 'random isotherms and depth grids against exhaustive search of the reference field',
    M07=PB + 'random harmonics and noise against analytic continuation',
    M08=PB + 'random harmonics and noise against the low-passed residual',
    E01=PB + 'simulated cruises end to end against the planted anomaly',
    E03=PB + 'random sections and maps forward-modelled by reference formulas, reduced and inverted by the code, compared with what was planted',
    E04=PB + 'random cruises with planted cross-coupling, forward-modelled and written to files, processed by the code and compared with what was planted',
    E05=PB + 'random cruises recorded in four kinds of file at once, processed by the code and compared with the physical histories and with each other',
    E06=PB + 'metamorphic: the same call with every kind of holder of its series',
    E07=PB + 'metamorphic: one sample changed, or a piece cut out, against the untouched record',
    E02='stateful ' + PB + 'random call histories against each call in fresh modules',
)
_G = ('Random search, no proof: the property held on every generated case (counts, non-trivial share and samples in the evidence file). ')
_F = 'Trusted: the writer of the file formats in vh/formats.py, built from the formats the readers document.'
_R = 'Trusted: the reference model in vh/refs.py, written from the literature, independent of the code.'
NOTE = {k: _G + (_F if k[0] in 'NBDF' else _R if k[0] in 'VGM' else 'Trusted: the model in checks/%s.py.' % k) for k in TECH}
NOTE['F01'] += ' Formats with fields spanning two values are a listed finding.'
NOTE['M03'] += ' The wrong wavenumber past Nyquist is a listed finding: those components are compared with the wrong value exactly.'
NOTE['M08'] += ' The one-sample shift is a listed finding: the result is compared after exactly that shift.'
NOTE['U04'] += ' The axes and lines are stand-ins, matplotlib is not installed here.'
NOTE['E03'] = _G + 'Trusted: the forward model in checks/E03.py and the reference formulas of M01, M02 and M07.'
NOTE['E04'] = _G + 'Trusted: the forward model in checks/E04.py and the reference formulas of G01-G03.'
NOTE['E05'] = _G + 'Trusted: the record writers in vh/formats.py and the forward model in checks/E05.py.'
NOTE['E07'] = _G + 'The values themselves are judged by the other properties; here only how far one sample reaches.'
NOTE['E06'] = _G + 'The values themselves are judged by the other properties; here only that the holder of a series makes no difference.'
