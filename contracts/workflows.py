"""C30 settings and workflows."""
import copy
from unittest import mock
from pydv.harness import contract
from contracts.common import *
from swprocess.masw import Masw
from swprocess.maswworkflows import AbstractMaswWorkflow
from swprocess.register import MaswWorkflowRegistry, WavefieldTransformRegistry
from swprocess.snr import SignaltoNoiseRatio

M = 'swprocess.masw.Masw.'
F = 'swprocess.maswworkflows.'
FW = F + 'AbstractMaswWorkflow.'

# option -> (entry, type, documented default)
OPTIONS = {
    'workflow': (('workflow',), str, 'time-domain'),
    'trim': (('pre-processing', 'trim', 'apply'), bool, False),
    'trim_begin': (('pre-processing', 'trim', 'begin'), float, 0.0),
    'trim_end': (('pre-processing', 'trim', 'end'), float, 1.0),
    'mute': (('pre-processing', 'mute', 'apply'), bool, False),
    'method': (('pre-processing', 'mute', 'method'), str, 'interactive'),
    'window_kwargs': (('pre-processing', 'mute', 'window_kwargs'), dict, {}),
    'pad': (('pre-processing', 'pad', 'apply'), bool, False),
    'df': (('pre-processing', 'pad', 'df'), float, 1.0),
    'min_offset': (('pre-processing', 'offsets', 'min'), float, 0.0),
    'max_offset': (('pre-processing', 'offsets', 'max'), float, float('inf')),
    'transform': (('processing', 'transform'), str, 'fdbf'),
    'fmin': (('processing', 'fmin'), float, 5.0),
    'fmax': (('processing', 'fmax'), float, 100.0),
    'vmin': (('processing', 'vmin'), float, 100.0),
    'vmax': (('processing', 'vmax'), float, 1000.0),
    'nvel': (('processing', 'nvel'), int, 200),
    'vspace': (('processing', 'vspace'), str, 'linear'),
    'weighting': (('processing', 'fdbf-specific', 'weighting'), str, 'sqrt'),
    'steering': (('processing', 'fdbf-specific', 'steering'), str, 'cylindrical'),
    'snr': (('signal-to-noise', 'perform'), bool, False),
    'noise_begin': (('signal-to-noise', 'noise', 'begin'), float, -0.5),
    'noise_end': (('signal-to-noise', 'noise', 'end'), float, 0.0),
    'signal_begin': (('signal-to-noise', 'signal', 'begin'), float, 0.0),
    'signal_end': (('signal-to-noise', 'signal', 'end'), float, 0.5),
    'pad_snr': (('signal-to-noise', 'pad', 'apply'), bool, True),
    'df_snr': (('signal-to-noise', 'pad', 'df'), float, 1.0),
}


def leaves(d, at=()):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and at + (k,) != ('pre-processing', 'mute', 'window_kwargs'):
            out.update(leaves(v, at + (k,)))
        else:
            out[at + (k,)] = v
    return out


def option(c, k, kind):
    if kind is bool:
        return c.bool(k)
    if kind is str:
        return c.choice(k, ['frequency-domain', 'fk', 'log', 'plane', 'none', 'other text'])
    if kind is dict:
        return {'alpha': c.real('alpha', lo=0, hi=1)}
    if kind is int:
        return c.int(k, 1, 500)
    return c.real(k)


@contract('C30', [M + 'create_settings_dict'], trials=300)
def settings_entries(c):
    """every option given, all together"""
    strings = {k: 'text-' + k for k, (_, t, _) in OPTIONS.items() if t is str}
    given = {k: strings[k] if t is str else option(c, k, t) for k, (_, t, _) in OPTIONS.items()}
    o = c.call(Masw.create_settings_dict, **given)
    c.check('accepted', o.ok)
    got = leaves(o.value)
    c.check('exactly the documented entries', set(got) == set(e for e, _, _ in OPTIONS.values()))
    for k, (e, t, _) in OPTIONS.items():
        c.check('each option at its own entry', same_option(c, t, got[e], given[k]))
    # not the caller's own window options
    c.check('window options are a copy', got[OPTIONS['window_kwargs'][0]] is not given['window_kwargs'])


def same_option(c, t, got, given):
    if t is dict:
        return c.and_(isinstance(got, dict), set(got) == set(given), lambda: c.is_(got['alpha'], given['alpha']))
    if t is str:
        return got == given
    return c.and_(c.is_(got, given), type(got) is t if not c.symbolic else True)


@contract('C30', [M + 'create_settings_dict'], trials=300)
def settings_defaults(c):
    """any one option given, the rest at their documented defaults"""
    name = c.choice('which', ['nothing'] + list(OPTIONS))
    given = {} if name == 'nothing' else {name: option(c, name, OPTIONS[name][1])}
    o = c.call(Masw.create_settings_dict, **given)
    c.check('accepted', o.ok)
    got = leaves(o.value)
    c.check('exactly the documented entries', set(got) == set(e for e, _, _ in OPTIONS.values()))
    for k, (e, t, default) in OPTIONS.items():
        if k == name:
            c.check('the option at its own entry', same_option(c, t, got[e], given[k]))
        else:
            c.check('nothing anywhere else', c.and_(got[e] == default, type(got[e]) is t))


@contract('C30', [M + 'create_settings_dict'], modes='C', trials=60)
def settings_types(c):
    """documented types, whatever the caller used"""
    o = c.call(Masw.create_settings_dict, trim=1, trim_begin=2, trim_end=np.float32(3), mute=0, pad='yes', df=2, fmin=3, fmax=np.int64(30), vmin=5,
               vmax=7, nvel=30.0, min_offset=3, max_offset=4, snr=1, noise_begin=-1, noise_end=0, signal_begin=0, signal_end=1, pad_snr=0, df_snr=5)
    c.check('accepted', o.ok)
    got = leaves(o.value)
    c.check('types', all(type(got[e]) is t for e, t, _ in OPTIONS.values()))


# ---------------------------------------------------------------------------
class Shot:
    """an acceptable shot with room for windows on both sides of time zero"""

    def __init__(self, c, tag='', like=None, side=None):
        if like is None:
            self.m = c.size('m', 3, 6)
            self.n = c.size('n', 24, 48)
            self.dt = c.choice('dt', [0.005, 0.01, 1 / 128])
            self.pre = c.int('pre', 6, 9)
            gap = c.choice('gap', [1.0, 2.0, 0.5])
            self.x = [gap * (i + 3) for i in range(self.m)]
            self.sx = self.x[0] - c.choice('source', [1.0, 5.0]) if c.choice('side', [0, 1]) else self.x[-1] + c.choice('source', [1.0, 5.0])
        else:
            self.__dict__.update(like.__dict__)
        self.A = c.mat('amp' + tag, (self.m, self.n))

    def build(self):
        return Array1D([Sensor1C(self.A[i].copy(), self.dt, self.x[i], 0., 0., nstacks=1, delay=-self.pre * self.dt) for i in range(self.m)],
                       Source(self.sx, 0., 0.))


def draw_settings(c, s, workflow):
    t = lambda k: (k - s.pre) * s.dt
    k0 = c.int('first', 0, 5)
    k1 = c.int('last', s.n - 5, s.n - 2)
    ns = c.int('noise from', 0, 2)
    ne = c.int('noise to', ns + 3, s.pre)
    ss = c.int('signal from', 6, 9)
    pad_snr = bool(c.choice('pad snr', [0, 1]))
    trim = bool(c.choice('trim', [0, 1]))
    se = c.int('signal to', ss + 4, s.n - 6) if pad_snr else ss + (ne - ns)
    kw = dict(workflow=workflow, trim=trim, trim_begin=t(k0), trim_end=t(k1), mute=bool(c.choice('mute', [0, 1])),
              pad=bool(c.choice('pad', [0, 1])), df=1 / (c.int('periods', 30, 90) * s.dt), snr=bool(c.choice('snr', [0, 1])), noise_begin=t(ns), noise_end=t(ne), signal_begin=t(ss), signal_end=t(se),
              pad_snr=pad_snr, df_snr=1 / (c.int('snr periods', 24, 60) * s.dt), transform=c.choice('transform', ['fdbf', 'fk', 'phaseshift']),
              fmin=c.choice('fmin', [5, 8.5]), fmax=c.choice('fmax', [20, 30.0]), vmin=100, vmax=c.choice('vmax', [200, 300]), nvel=c.int('nvel', 1, 4),
              vspace=c.choice('vspace', ['linear', 'log']), weighting=c.choice('weighting', ['none', 'sqrt']), steering=c.choice('steering', ['plane', 'cylindrical']))
    w = c.choice('window', [None, {'alpha': 0.3}, {'alpha': 1.0}])
    if w is not None:
        kw['window_kwargs'] = w
    off = [abs(x - s.sx) for x in s.x]
    if c.choice('offsets', [0, 1]):
        kw['min_offset'] = sorted(off)[0] - 0.25
        kw['max_offset'] = sorted(off)[c.int('kept', 1, s.m - 1)] + 0.25
    return Masw.create_settings_dict(**kw), w


def lines(c, s):
    t = lambda k: (k - s.pre) * s.dt
    a, b = s.x[0] - 1, s.x[-1] + 1
    p = ((a, t(c.int('mute from', 6, 8))), (b, t(c.int('mute from 2', 6, 8))))
    q = ((a, t(c.int('mute to', 13, 17))), (b, t(c.int('mute to 2', 13, 17))))
    return p, q


def steps(arr, st, w, pq):
    """the documented order, step by step"""
    pre, snr, proc = st['pre-processing'], st['signal-to-noise'], st['processing']
    arr.trim_offsets(pre['offsets']['min'], pre['offsets']['max'])
    for x in arr.sensors:
        x.detrend()
    ratio = noise = signal = None
    if snr['perform']:
        noise = Array1D.from_array1d(arr)
        noise.trim(snr['noise']['begin'], snr['noise']['end'])
    if pre['trim']['apply']:
        arr.trim(pre['trim']['begin'], pre['trim']['end'])
    if pre['mute']['apply']:
        arr.mute(signal_start=pq[0], signal_end=pq[1], window_kwargs=w)
    if snr['perform']:
        signal = Array1D.from_array1d(arr)
        signal.trim(snr['signal']['begin'], snr['signal']['end'])
        ratio = SignaltoNoiseRatio.from_array1ds(signal, noise, fmin=proc['fmin'], fmax=proc['fmax'], pad_snr=snr['pad']['apply'], df_snr=snr['pad']['df'])
    if pre['pad']['apply']:
        arr.zero_pad(pre['pad']['df'])
    T = WavefieldTransformRegistry.create_class(proc['transform'])
    return T.from_array(array=arr, settings=copy.deepcopy(proc)), ratio


def run(c, shots, st, pq, fnames, via, asked):
    """run the real workflow with files answered by the given shots"""
    def from_files(fnames, map_x=None, map_y=None, **k):
        asked.append((fnames, map_x, map_y))
        key = fnames if isinstance(fnames, str) else fnames[0]
        return shots[key].build()

    picks = [p for p in pq]

    def ginput(ax, *a, **k):
        p = picks.pop(0)
        return tuple(q[0] for q in p), tuple(q[1] for q in p)
    mx, my = (lambda x: x), (lambda y: y)
    ax = mock.MagicMock()
    with mock.patch.object(Array1D, 'from_files', staticmethod(from_files)), \
            mock.patch.object(Array1D, '_ginput_session', staticmethod(ginput)), \
            mock.patch.object(Array1D, 'waterfall', lambda self, **k: (mock.MagicMock(), ax)):
        if via == 'masw':
            o = c.call(Masw.run, fnames, st, map_x=mx, map_y=my)
        else:
            def go():
                K = MaswWorkflowRegistry.create_class(st['workflow'])
                return K(fnames=fnames, settings=st, map_x=mx, map_y=my).run()
            o = c.call(go)
    c.check('coordinate maps are handed on', all(b is mx and d is my for _, b, d in asked))
    return o


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    gap, scale = np.isnan(b), np.nanmax(np.abs(np.append(b, 0.)))     # a cylindrical wave has no value at zero frequency
    return bool(np.all(np.isnan(a) == gap)) and bool(np.all(np.abs(a - b)[~gap] <= 1e-9 * (1e-30 + scale)))


def same_arrays(a, b):
    return a.nchannels == b.nchannels and all(
        p.x == q.x and p.dt == q.dt and p.delay == q.delay and p.nsamples == q.nsamples and p.nstacks == q.nstacks and close(p.amplitude, q.amplitude)
        for p, q in zip(a.sensors, b.sensors))


STEPS = [FW + k for k in ('__init__', 'check', 'trim_offsets', 'detrend', 'select_noise', 'trim_time', 'mute', 'select_signal', 'calculate_snr', 'pad')]


@contract('C30', [F + 'TimeDomainWorkflow.run', F + 'SingleMaswWorkflow.run', M + 'run'] + STEPS, modes='C', trials=120)
def time_domain(c):
    s = Shot(c)
    workflow = c.choice('workflow', ['time-domain', 'single'])
    st, w = draw_settings(c, s, workflow)
    pq = lines(c, s)
    before = copy.deepcopy(st)
    names = c.choice('names', ['a.su', ['a.su'], ['a.su', 'b.su', 'c.su']])
    asked = []
    o = run(c, {'a.su': s}, st, pq, names, c.choice('via', ['masw', 'class']), asked)
    ref = s.build()
    want = c.call(steps, ref, before, w, pq)
    c.assume(want.ok)
    c.check('accepted', o.ok)
    T, ratio = want.value
    R = o.value
    if workflow == 'single':
        c.check('a single file is read', [a if isinstance(a, str) else list(a) for a, _, _ in asked] in (['a.su'], [['a.su']]))
    else:
        c.check('every file is read together', len(asked) == 1 and (asked[0][0] == names or list(asked[0][0]) == names))
    c.check('settings as they were', st == before)
    c.check('array after the enabled steps', same_arrays(R.array, ref))
    c.check('transform requested', type(R) is type(T))
    c.check('frequencies and velocities', close(R.frequencies, T.frequencies) and close(R.velocities, T.velocities))
    c.check('power', close(R.power, T.power))
    if ratio is not None:
        c.check('signal to noise', close(R.snr, ratio.snr) and close(R.snr_frequencies, ratio.frequencies))


@contract('C30', [F + 'FrequencyDomainMaswWorkflow.run', M + 'run'] + STEPS, modes='C', trials=100)
def frequency_domain(c):
    k = c.size('shots', 1, 4)
    first = Shot(c)
    shots = [first] + [Shot(c, f'_{i}', like=first) for i in range(1, k)]
    st, w = draw_settings(c, first, 'frequency-domain')
    pq = lines(c, first)
    before = copy.deepcopy(st)
    names = [f'{i}.su' for i in range(k)]
    asked = []
    o = run(c, dict(zip(names, shots)), st, pq, names if k > 1 or c.choice('as list', [0, 1]) else names[0], c.choice('via', ['masw', 'class']), asked)
    refs = [s.build() for s in shots]
    want = [c.call(steps, r, before, w, pq) for r in refs]
    c.assume(all(x.ok for x in want))
    c.check('accepted', o.ok)
    R = o.value
    c.check('settings as they were', st == before)
    c.check('every file is read', set(a if isinstance(a, str) else a[0] for a, _, _ in asked) == set(names))
    T0 = want[0].value[0]
    c.check('frequencies and velocities', close(R.frequencies, T0.frequencies) and close(R.velocities, T0.velocities))
    mean = sum(np.abs(x.value[0].power) if False else x.value[0].power for x in want) / k
    c.check('power is the average over shots', close(R.power, mean))
    c.check('number of shots', R.n == k)
    c.check('array after the enabled steps', same_arrays(R.array, refs[-1]))
    if want[0].value[1] is not None:
        c.check('signal to noise of a shot', any(close(R.snr, x.value[1].snr) and close(R.snr_frequencies, x.value[1].frequencies) for x in want))


@contract('C30', [FW + 'check', F + 'TimeDomainWorkflow.run', F + 'FrequencyDomainMaswWorkflow.run'], modes='C', trials=60)
def source_inside(c):
    s = Shot(c)
    k = c.int('between', 0, s.m - 2)
    s.sx = s.x[k] + (s.x[k + 1] - s.x[k]) * c.choice('at', [0.5, 0.25])
    if k > 0 and c.choice('on a sensor', [0, 1]):
        s.sx = s.x[k]
    workflow = c.choice('workflow', ['time-domain', 'single', 'frequency-domain'])
    st, w = draw_settings(c, Shot(c, 'z', like=s), workflow)
    st['pre-processing']['offsets'] = {'min': 0.0, 'max': float('inf')}
    pq = lines(c, s)
    before = copy.deepcopy(st)
    o = run(c, {'a.su': s}, st, pq, ['a.su'], 'masw', [])
    c.check('source inside the array is rejected', not o.ok and isinstance(o.exc, ValueError))
    c.check('settings as they were', st == before)


@contract('C30', [F + 'FrequencyDomainMaswWorkflow.run', FW + 'mute'], modes='C', trials=40)
def workflow_rejects(c):
    s = Shot(c)
    how = c.choice('how', ['dissimilar', 'mute method', 'workflow', 'transform'])
    workflow = {'dissimilar': 'frequency-domain', 'workflow': 'nothing'}.get(how) or c.choice('workflow', ['time-domain', 'single', 'frequency-domain'])
    st, w = draw_settings(c, s, workflow)
    shots = {'a.su': s}
    if how == 'dissimilar':
        t = Shot(c, 'b', like=s)
        if c.choice('source moved', [0, 1]):
            t.sx = s.sx + (1 if s.sx > s.x[-1] else -1)
        else:
            t.m, t.x = s.m - 1, s.x[:-1]
        shots['b.su'] = t
    elif how == 'mute method':
        st['pre-processing']['mute'] = {'apply': True, 'method': 'fixed', 'window_kwargs': {}}
    elif how == 'transform':
        st['processing']['transform'] = 'nothing'
    before = copy.deepcopy(st)
    o = run(c, shots, st, lines(c, s), list(shots), 'masw', [])
    c.check('rejected', not o.ok)
    c.check('settings as they were', st == before)
