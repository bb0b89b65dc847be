"""File formats, written from the documentation: truth in, text out.

Times are integer microseconds since the epoch (UTC).  Angles are integers in 1e-6 arc minutes.
"""
from datetime import datetime, timedelta, timezone

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
DEG = 60_000_000  # one degree in micro-minutes
NAV_SHIPS = ('Atlantis', 'NBP', 'Thompson', 'Revelle', 'Ride', 'Langseth', 'Sikuliaq')
TALKER = {'Atlantis': 'GPGGA', 'NBP': 'GPGGA', 'Thompson': 'INGGA', 'Revelle': 'GPGGA', 'Ride': 'INGGA',
          'Langseth': 'INGGA', 'Sikuliaq': 'GPGGA'}
BGM_SCALE = {'Atlantis': 4.994070552, 'Thompson': 5.003353363, 'Revelle': 4.99980755, 'Langseth': 5.0}


def dt(us):
    return EPOCH + timedelta(microseconds=us)


def frac(us, digits):
    """The first `digits` digits of the fraction of a second (the caller uses exact multiples)."""
    return '' if digits == 0 else '.%0*d' % (digits, (us % 1_000_000) // 10 ** (6 - digits))


def ddmm(v, ndeg, ndec=6):
    """Degrees and decimal minutes of a non-negative angle."""
    deg, mm = divmod(v, DEG)
    scaled = mm // 10 ** (6 - ndec)
    whole, part = divmod(scaled, 10 ** ndec)
    return '%0*d%02d' % (ndeg, deg, whole) + ('.%0*d' % (ndec, part) if ndec else '')


# what follows the position: quality, satellites, dilution, height, geoid, age and station, checksum
TAILS = [',2,12,0.9,25.169,M,-30.062,M,4.0,0402*46', ',1,08,1.1,-3.2,M,-30.1,M,,*5B', ',0,00,99.9,0.0,M,0.0,M,,*00', ',4,17,0.6,18.05,M,-24.0,M,1.2,0000*7F', ',5,09,2.0,,M,,M,,*1D', ',8,,,,M,,M,,*41',
         ',2,12,0.9,25.169,M,-30.062,M,4.0,0402*46']


def gga(talker, us, digits, lat, lon, ndec=6, blank=False, sep=',', tail=None):
    tail = tail or TAILS[(us // 10 ** 5 + abs(lat)) % len(TAILS)]
    clock = dt(us).strftime('%H%M%S') + frac(us, digits)
    if blank == 1:
        pos = ',,,'
    elif blank == 2:
        pos = ',N,,W'
    elif blank:  # only one of the two is missing
        pos = '%s,N,,W' % ddmm(abs(lat), 2, ndec) if blank == 3 else ',N,%s,W' % ddmm(abs(lon), 3, ndec)
    else:
        pos = '%s,%s,%s,%s' % (ddmm(abs(lat), 2, ndec), 'S' if lat < 0 else 'N',
                               ddmm(abs(lon), 3, ndec), 'W' if lon < 0 else 'E')
    return '$%s%s%s,%s%s' % (talker, sep, clock, pos, tail)


def foreign(kind, us, talker):
    """A sentence that is not a fix of `talker`."""
    other = 'INGGA' if talker == 'GPGGA' else 'GPGGA'
    clock = dt(us).strftime('%H%M%S') + '.00'
    d = dt(us)
    return ['$GPZDA,%s,%02d,%02d,%04d,00,00*67' % (clock, d.day, d.month, d.year),
            '$GPVTG,218.7,T,,M,0.01,N,0.02,K,D*07',
            '$PSXN,23,-0.67,0.42,4.62,0.10*13',
            '$GPGLL,1345.095825,N,01923.337492,W,%s,A,D*7C' % clock,
            '$%s,%s,1111.500000,S,01212.250000,E,2,12,0.9,1.0,M,2.0,M,4.0,0402*46' % (other, clock),
            '$HEHDT,243.3,T*2A'][kind % 6]


def nav_line(ship, text, log_us, talker=None, digits=6):
    """A sentence as the ship's logger writes it at logger time log_us (digits: of the fraction, Ride GPGGA and Sikuliaq)."""
    d = dt(log_us)
    ms = '%03d' % ((log_us % 1_000_000) // 1000)
    if ship == 'Atlantis':
        return 'NAV %s.%s GPS %s' % (d.strftime('%Y/%m/%d %H:%M:%S'), ms, text)
    if ship == 'NBP':
        doy = d.strftime('%j')
        if digits == 2 and doy[1] != '0':  # days 10 to 99 may be written with two digits
            doy = doy.lstrip('0')
        return '%s+%s:%s.%s %s' % (d.strftime('%y'), doy, d.strftime('%H:%M:%S'), ms, text)
    if ship == 'Thompson':
        return '%s.%s,%s' % (d.strftime('%m/%d/%Y,%H:%M:%S'), ms, text)
    if ship == 'Revelle':
        return '%s%sZ %s' % (d.strftime('%Y-%m-%dT%H:%M:%S'), frac(log_us, 6), text)
    if ship == 'Ride' and talker in (None, 'INGGA'):
        return '%d%s %s' % (log_us // 1_000_000, frac(log_us, 6).rstrip('0') if log_us % 1_000_000 else '.0' if digits else '', text)
    if ship in ('Ride', 'Sikuliaq'):
        return 'gnss\t%s%sZ\t%s' % (d.strftime('%Y-%m-%dT%H:%M:%S'), frac(log_us, digits), text)
    if ship == 'Langseth':
        return 'seapath\t%s%s\t%s' % (d.strftime('%Y:%j:%H:%M:%S'), frac(log_us, 4), text)
    raise KeyError(ship)


def own_clock(ship):
    """Ships whose fixes are timed by the logger's stamp on the record."""
    return ship in ('Ride', 'Sikuliaq', 'Langseth')


def nav_time(ship, us):
    """The time the ship's format can carry for a fix at us."""
    if ship == 'Thompson':
        return us - us % 1_000_000
    if ship == 'Langseth':
        return us - us % 100
    return us


def end(text, final):
    """The text of a file whose last line has an end-of-line mark, or (final False) has none."""
    return text if final else text.removesuffix('\n').removesuffix('\r')


NOISE = ('', '   ', '# logger restarted', 'cap au 270\u00b0, vitesse 5 n\u0153uds', '\x00\x01', '"', '$', '*')  # (lines that no logger stamped)


DATED = (None, 'logger mark', '', ':0402,*#', 'PSXN 23')  # (what else a dated line of Revelle may hold; None: a sentence)


def nav_file(ship, fixes, talker=None, eol='\n'):
    """fixes: dicts with t, lat, lon and optionally digits, ndec, blank, lag (us, logger minus receiver), dated,
    before (kinds of foreign sentences to put in front), noise (lines of no format to put in front)."""
    talker = talker or TALKER[ship]
    out = []
    for f in fixes:
        out += [NOISE[k] for k in f.get('noise', [])]
        t = f['t']
        log = t if own_clock(ship) else t + f.get('lag', 0)
        s = gga(talker, t, f.get('digits', 2), f['lat'], f['lon'], f.get('ndec', 6), f.get('blank', 0), f.get('sep', ','))
        if ship == 'Revelle':
            # the date is on a line in front of the sentence, other lines may come in between
            for k in f.get('before', []):
                out.append(nav_line(ship, foreign(k, t, talker), log))
            out.append(nav_line(ship, DATED[f.get('dated', 0)] or foreign(0, t, talker), log))
            for k in f.get('before', [])[:2]:
                out.append(foreign(k, t, talker))
            out += [foreign(k, t, talker) for k in range(f.get('between', 0))]
            out.append(s)
        else:
            for k in f.get('before', []):
                out.append(nav_line(ship, foreign(k, t, talker), log, talker))
            out.append(nav_line(ship, s, log, talker, f.get('logdigits', 6)))
    return eol.join(out) + eol


# ---------------------------------------------------------------- gravimeters

def bgm_line(ship, us, counts, digits=3, pre='04', flag='00'):
    d = dt(us)
    c = '%s:%06d %s' % (pre, counts, flag)
    ms = frac(us, digits)
    if ship == 'Atlantis':
        return 'BGM %s%s BGM3 %s' % (d.strftime('%Y/%m/%d %H:%M:%S'), ms, c)
    if ship == 'Thompson':
        return '%s%s,%s' % (d.strftime('%m/%d/%Y,%H:%M:%S'), ms, c)
    if ship == 'Revelle':
        return '%s%sZ %s' % (d.strftime('%Y-%m-%dT%H:%M:%S'), frac(us, 6), c)
    if ship == 'Langseth':
        return 'vc01\t%s%s\t%s' % (d.strftime('%Y:%j:%H:%M:%S'), frac(us, 4), c)
    raise KeyError(ship)


def bgm_time(ship, us, digits=3):
    q = {'Atlantis': 10 ** (6 - digits), 'Thompson': 10 ** (6 - digits), 'Revelle': 1, 'Langseth': 100}[ship]
    return us - us % q


def rgs_line(us, grav, lat, lon, junk, digits=3):
    """junk: eleven numbers (or None: left blank) for the fields that are not read."""
    d = dt(us)
    j = ['' if v is None else v for v in junk]
    k = ['' if v is None else '%.3f' % v for v in junk]
    return ' '.join(str(x) for x in [
        'RGS', d.strftime('%Y/%m/%d %H:%M:%S') + frac(us, digits), grav, j[0], k[1], '4.994070552', k[2],
        'BGM3', 'S210', 'GPS:', lat, lon, k[3], j[4], j[5], 'UNKNOWN_SRC', k[6], k[7], 'DEPTH:', j[8], j[9], 'NONE', 'HDG:',
        k[10], k[1], 'SRC_GYRO', 'NO_DNV_ERROR', k[3], '-999'])


LAPTOP = ['qc', 'rgrav', 'long_a', 'crss_a', 'beam', 'temp', 'status', 'checksum', 'pressure', 'etemp', 've', 'vcc',
          'al', 'ax', 'lat', 'lon', 'speed', 'course', 'vmond', 'year', 'month', 'day', 'hour', 'minute', 'second',
          'numline']
LAPTOP_READ = ['rgrav', 'long_a', 'crss_a', 'status', 've', 'vcc', 'al', 'ax', 'lat', 'lon']
LAPTOP_READ_THOMPSON = ['rgrav', 've', 'vcc', 'al', 'ax', 'lat', 'lon']


def laptop_fields(rec, us):
    """rec: values of the 18 numeric channels qc..vmond (status and checksum integers) and numline."""
    d = dt(us)
    out = []
    for n in LAPTOP:
        if n in ('status', 'checksum'):
            out.append('%16d' % rec[n])
        elif n == 'numline':
            out.append('%d' % rec[n])
        elif n == 'second':
            out.append('%02d.%02d' % (d.second, (us % 1_000_000) // 10_000))
        elif n in ('year', 'month', 'day', 'hour', 'minute'):
            out.append('%02d' % getattr(d, n))
        else:
            out.append('' if rec[n] is None else '%15.12f' % rec[n])
    return out


SKQ_HEADER = '''# Platform:
#   Name: R/V Sikuliaq
#   Operator: UAF
#   IMO Number: 9578945
#   ICES Code: 33BI
#   Call Sign: WDN7246
#   MMSI Number: 338417000
# Cruise ID: SKQ202418S
#
# Instrument:
#   Name: Dynamic Gravity Systems Advanced Technology Marine Gravimeter
#   Model: AT1-M
#   Serial Number: 33
#   Location: Aft inboard wall of tech workshop, 1-12-1
#   Installation Date: 28 November 2023
#
# Parameters:
# Log Name\tLog Time\t%s
#
'''


def laptop_line(ship, rec, us, log_us, ld=None):
    """ld: digits of the fraction in the logger's stamp."""
    f = ','.join(laptop_fields(rec, us))
    d = dt(log_us)
    if ship == 'Thompson':
        return '%s%s,%s' % (d.strftime('%m/%d/%Y,%H:%M:%S'), frac(log_us, ld or 3), f)
    if ship == 'Sikuliaq':
        return 'grav_dgs_33_proc\t%s%sZ\t%s' % (d.strftime('%Y-%m-%dT%H:%M:%S'), frac(log_us, ld or 4), f)
    if ship == 'Langseth':
        return 'dgsdata\t%s%s\t%s' % (d.strftime('%Y:%j:%H:%M:%S'), frac(log_us, ld or 4), f)
    return f


def laptop_file(ship, lines, eol='\n'):
    head = SKQ_HEADER % 'QC_Gravity, Gravity, Long accelerometer' if ship == 'Sikuliaq' else ''
    return head + eol.join(lines) + eol


RAW = ['Gravity', 'Long', 'Cross', 'Beam', 'Temp', 'Pressure', 'ElecTemp', 'vcc', 've', 'al', 'ax', 'status',
       'checksum', 'latitude', 'longitude', 'speed', 'course']
RAW_SKQ = {'rgrav': 'Gravity', 'long_a': 'Long', 'crss_a': 'Cross', 'vcc': 'vcc', 've': 've', 'al': 'al', 'ax': 'ax',
           'lat': 'latitude', 'lon': 'longitude'}


def raw_line(ship, rec, us, log_us, synced, prefix=True, ld=None):
    vals = []
    for n in RAW:
        v = rec[n]
        vals.append('' if v is None else '%.10f' % v if n in ('latitude', 'longitude') else '%.4f' % v if n in ('speed', 'course') else '%d' % v)
    last = dt(us).strftime('%Y%m%d%H%M%S') if synced else '%d' % rec['clock']
    body = '$AT1M_%s_%d,%s,%s' % (rec.get('model', '3.64'), rec['num'], ','.join(vals), last)
    d = dt(log_us)
    if ship == 'Thompson':
        return '%s%s,%s' % (d.strftime('%m/%d/%Y,%H:%M:%S'), frac(log_us, ld or 3), body)
    if ship == 'Sikuliaq':
        return 'grav_dgs_33_raw\t%s%sZ\t%s' % (d.strftime('%Y-%m-%dT%H:%M:%S'), frac(log_us, ld or 4), body)
    if prefix:
        return '%s%sZ %s' % (d.strftime('%Y-%m-%dT%H:%M:%S'), frac(log_us, ld or 6), body)
    return body


def raw_file(ship, lines, eol='\n', head=None):
    """head: number of comment lines at the top of a Sikuliaq file, and of the record that has another one in front of it."""
    top = ''
    if ship == 'Sikuliaq':
        top = SKQ_HEADER % 'raw'
        if head is not None:
            top = ''.join('# line %d of the header\n' % k for k in range(head[0]))
            lines = lines[:head[1]] + ['# logger restarted'] + lines[head[1]:]
    return top + eol.join(lines) + eol
