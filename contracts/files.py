"""C32 .max files, C37 continuous-record extraction."""
import datetime
import os
import shutil
from unittest import mock
import obspy
from pydv.harness import contract
from contracts.common import *
from swprocess import utils
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite

P = 'swprocess.peaks.Peaks.'
Q = 'swprocess.peakssuite.PeaksSuite.'
R = 'swprocess.regex.'
FIELDS = ['frequency', 'velocity', 'azimuth', 'ellipticity', 'noise', 'power']
TIMES = ['20170609223200.000000', '20170609224100.180000', '720170609223200.000000', '7201.000000', '17201.000000', '7201.5', '720195', '72', '100.25']
FREQS = ['1', '1.5', '11.5', '115', '1.1200499091501965321', '10', '0.5', '21.350553053747969301', '1.50', '2e+01', '105']
HEAD = '''# MAX FORMAT RELEASE 1.1
#
# BEGIN COMMAND LINE ARGUMENTS
#
geopsy-fk -db x.gpy -param {word}.param -group-path 3c -o out_1
#
# BEGIN SOFTWARE VERSION
#
  Qt                  5.12.3
  QGpCoreTools        2.2.0 from geopsypack-{version}
      (built on 20191001095018 commit 9a9aca6fa9a4afe876dea557f2abdfcf2a347b70)
  QGpCoreWave         2.0.2 from geopsypack-{version}
# BEGIN PARAMETERS
PROCESS_TYPE={process}
{word}=1 2 3 1
N_MAXIMA={nmax}
# If provided and PROCESS_TYPE==DirectSteering, the ellipticity is forced to the provided curve.
#
# abs_time frequency polarization slowness azimuth ellipticity noise power valid
'''


class MaxFile:
    def __init__(self, c, tag='', waves=None, times=None, version='3.2.0'):
        self.waves = waves or c.choice('waves' + tag, [['Rayleigh', 'Love'], ['Vertical'], ['Rayleigh', 'Love', 'Radial', 'Transverse'], ['Love']])
        self.process = c.choice('process' + tag, ['RTBF', 'Conventional', 'DirectSteering'])
        self.nmax = c.choice('nmax' + tag, [1, 2, 5])
        self.version = version
        self.word = c.choice('word' + tag, ['COMMENT', 'inf', 'nan', 'Rayleigh', 'info'])
        if times is None:
            o = c.order('times' + tag, len(TIMES))
            times = [TIMES[i] for i in o[:c.size('windows' + tag, 1, 4)]]
        self.times = times
        fo = c.order('freqs' + tag, len(FREQS))
        freqs = [FREQS[i] for i in fo[:c.size('nfreq' + tag, 1, 5)]]
        num = lambda name, lo, hi: self.text(c, c.real(name, lo=lo, hi=hi), name)
        self.lines = []
        k = 0
        for t in self.times:
            for f in freqs:
                for w in self.waves:
                    for i in range(c.int(f'per{tag}{k}', 0, self.nmax)):
                        n = f'{tag}_{k}_{i}'
                        noise = c.choice('noise' + n, ['0', '0', 'inf', '-inf', 'nan', num('no' + n, -2, 2)])
                        self.lines.append((t, f, w, num('s' + n, 0.0005, 0.02), num('a' + n, 0, 360), num('e' + n, -2, 2), noise,
                                           num('p' + n, 0, 1e5), c.choice('valid' + n, ['1', '1', '1', '0'])))
                    k += 1
        self.mixed = bool(c.choice('mixed' + tag, [0, 1]))
        if self.mixed:
            self.lines = [self.lines[i] for i in c.order('mix' + tag, len(self.lines))]

    @staticmethod
    def text(c, x, name):
        how = c.choice('as ' + name, ['repr', 'long', 'exp', 'round'])
        if how == 'long':
            return f'{x:.22g}'
        if how == 'exp':
            return f'{x:.12e}'
        if how == 'round':
            return str(round(x)) if abs(x) >= 1 else f'{x:.6f}'
        return repr(x)

    def write(self, name):
        with open(name, 'w') as f:
            f.write(HEAD.format(word=self.word, version=self.version, process=self.process, nmax=self.nmax))
            for line in self.lines:
                f.write(' '.join(line) + '\n')
            f.write('# BEGIN ARRAY\nSELECT_ARRAY_CENTER=0 0\n')

    def wanted(self, wave):
        """time -> the valid points of that wave type, in the file's order of times"""
        valid = [l for l in self.lines if l[8] == '1']
        first = valid[0][2] if valid else None
        wave = wave.capitalize()
        if wave == 'Rayleigh' and first == 'Vertical':
            wave = 'Vertical'
        out = {}
        for l in valid:
            if l[2] == wave:
                out.setdefault(l[0], []).append((float(l[1]), 1 / float(l[3]), *(float(x) for x in l[4:8])))
        name = 'capon' if self.process == 'RTBF' and first == 'Vertical' else self.process.lower()
        return {t: (f'{t}-{name}', pts) for t, pts in out.items()}


def key(p):
    return tuple('nan' if x != x else f'{x:.12e}' for x in p)


def holds(c, p, ident, pts):
    c.check('identifier', p.identifier == ident)
    cols = [list(getattr(p, k)) for k in FIELDS]
    c.check('one entry per attribute and point', len(set(len(q) for q in cols)) == 1)
    c.check('exactly the valid points of that window', sorted(key(q) for q in zip(*cols)) == sorted(key(q) for q in pts))


@contract('C32', [P + 'from_max', P + '_parse_peaks', R + 'get_peak_from_max', R + 'get_all', R + 'get_wavetype', R + 'get_process_type', R + 'get_nmaxima',
                  R + 'get_geopsy_version', R + 'validate_wavetypes'], modes='C', trials=200)
def one_window(c):
    m = MaxFile(c)
    wave = c.choice('wave', ['rayleigh', 'love', 'vertical', 'radial', 'transverse'])
    want = m.wanted(wave)
    c.assume(want)
    m.write('one.max')
    o = c.call(Peaks.from_max, 'one.max', wavetype=wave)
    c.check('accepted', o.ok)
    holds(c, o.value, *next(iter(want.values())))


@contract('C32', [Q + 'from_max', P + '_parse_peaks', R + 'get_peak_from_max', R + 'get_all', R + 'get_wavetype', R + 'get_process_type', R + 'get_nmaxima'],
          modes='C', trials=200)
def all_windows(c):
    k = c.size('files', 1, 3)
    kinds = [['Rayleigh', 'Love'], ['Vertical'], ['Rayleigh'], ['Love', 'Rayleigh']]
    o = c.order('times', len(TIMES))
    ms = []
    for i in range(k):
        ms.append(MaxFile(c, f'#{i}', waves=c.choice(f'kind{i}', kinds), times=[TIMES[j] for j in o[3 * i:3 * i + c.int(f'windows{i}', 1, 3)]]))
        ms[-1].write(f'f{i}.max')
    wave = c.choice('wave', ['rayleigh', 'rayleigh', 'love', 'vertical'])
    # a file with no valid line at all has no wave type: outside the format
    c.assume(all(any(l[8] == '1' for l in m.lines) for m in ms))
    want = [x for m in ms for x in m.wanted(wave).values()]
    c.assume(want)
    names = [f'f{i}.max' for i in range(k)]
    o = c.call(PeaksSuite.from_max, names if k > 1 or c.choice('list', [0, 1]) else names[0], **({} if wave == 'rayleigh' else {'wavetype': wave}))
    c.check('accepted', o.ok)
    c.check('one peak set per window, file by file', [p.identifier for p in o.value.peaks] == [w[0] for w in want])
    for p, w in zip(o.value.peaks, want):
        holds(c, p, *w)


@contract('C32', [P + 'from_max', Q + 'from_max', 'swprocess.meta.check_geopsy_version', R + 'get_geopsy_version', R + 'validate_wavetypes'], modes='C', trials=80)
def unsupported(c):
    m = MaxFile(c, version=c.choice('version', ['3.3.0', '3.2.1', '2.10.1', '13.2.0', '3.20.0', '4.0.0', '3.2.01', '3.12.0']))
    c.assume(m.wanted('rayleigh') and m.version != '3.2.0')
    m.write('bad.max')
    c.check('unsupported version is rejected', not c.call(c.choice('by', [Peaks, PeaksSuite]).from_max, 'bad.max').ok)
    m.version = '3.2.0'
    m.write('bad.max')
    c.check('unknown wave type is rejected', not c.call(c.choice('by2', [Peaks, PeaksSuite]).from_max, 'bad.max', wavetype=c.choice('wave', ['Rayleigh', 'p', ''])).ok)


# ---------------------------------------------------------------------------
# C37
COLS = 'folder name,array name,station number,start year,start month,start date,start hour,start minute,start second,end year,end month,end date,end hour,end minute,end second,notes'


def hourly(base, station, hours, first, delta, value, typ):
    """one file per hour; value(k) is the k-th sample since the first hour"""
    per = int(3600 / delta)
    for h in range(hours):
        t = first + datetime.timedelta(hours=h)
        tr = obspy.Trace(np.array([value(h * per + i) for i in range(per)], dtype=typ))
        tr.stats.delta = delta
        tr.stats.network, tr.stats.station = 'NW', f'STN{station:02d}'
        tr.stats.starttime = obspy.UTCDateTime(t)
        tr.write(os.path.join(base, f'NW.STN{station:02d}_{t:%Y%m%d_%H}0000.mseed'), format='MSEED')


@contract('C37', ['swprocess.utils.extract_mseed'], modes='C', trials=40)
def extract(c):
    shutil.rmtree('in', ignore_errors=True)
    shutil.rmtree('out', ignore_errors=True)
    os.mkdir('in')
    os.mkdir('out')
    delta = c.choice('delta', [60.0, 30.0, 10.0])
    per = int(3600 / delta)
    first = datetime.datetime(*c.choice('first', [(2020, 12, 31, 22), (2021, 2, 28, 21), (2020, 2, 28, 20), (2019, 7, 4, 5), (2022, 9, 30, 23), (2021, 1, 9, 8)]))
    hours = c.int('hours', 2, 6)
    stations = [[3, 12], [7], [1, 2, 10]][c.int('stations', 0, 2)]
    typ = c.choice('type', ['int32', 'float64'])
    rows, want, text = [], [], [COLS]
    for s in stations:
        hourly('in', s, hours, first, delta, lambda k, s=s: 100000 * s + k, typ)
    bad = None
    for k in range(c.int('requests', 1, 4)):
        s = c.choice(f'station{k}', stations)
        a = c.int(f'from{k}', 0, hours * per - 1, small=None)
        b = c.int(f'to{k}', 0, hours * per - 1)
        if c.choice(f'whole hours{k}', [0, 0, 1]):
            a, b = a // per * per, b // per * per
        if not (bad is None and c.choice(f'backwards{k}', [0, 0, 0, 1]) and a != b):
            a, b = min(a, b), max(a, b)
        else:
            a, b = max(a, b), min(a, b)
            bad = k
        t = [first + datetime.timedelta(seconds=delta * q) for q in (a, b)]
        folder, array = f'set_{c.choice(f"folder{k}", ["a", "b"])}', f'C{k}'
        text.append(','.join(map(str, [folder, array, s] + [getattr(q, w) for q in t for w in ('year', 'month', 'day', 'hour', 'minute', 'second')] + ['note'])))
        want.append((s, a, b, folder, array, t))
    open('when.csv', 'w').write('\n'.join(text) + '\n')
    seen = []
    real = obspy.read

    def read(name, *x, **k):
        seen.append(os.path.basename(str(name)))
        return real(name, *x, **k)
    with mock.patch.object(utils.obspy, 'read', read):
        o = c.call(utils.extract_mseed, 'when.csv', 'NW', data_dir='in', output_dir='out')
    if bad is not None:
        c.check('a request that ends before it starts is rejected', not o.ok)
        w = want[bad]
        c.check('nothing is written for it', not os.path.exists(f'out/{w[3]}/NW.STN{w[0]:02d}.{w[4]}.mseed'))
        want = want[:bad]
    else:
        c.check('accepted', o.ok)
        names = []
        for s, a, b, _, _, _ in want:
            for h in range(a // per, b // per + 1):
                names.append(f'NW.STN{s:02d}_{first + datetime.timedelta(hours=h):%Y%m%d_%H}0000.mseed')
        c.check('every hourly file once', sorted(seen) == sorted(names))
    for s, a, b, folder, array, t in want:
        out = f'out/{folder}/NW.STN{s:02d}.{array}.mseed'
        c.check('one file per request', os.path.exists(out))
        st = real(out)
        c.check('one continuous trace', len(st) == 1)
        c.check('starts at the requested time', abs(st[0].stats.starttime - obspy.UTCDateTime(t[0])) < 1e-3 and st[0].stats.delta == delta)
        c.check('exactly the samples of the span', st[0].data.tolist() == [100000 * s + q for q in range(a, b + 1)])
