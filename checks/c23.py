"""C23: time and frequency axes always agree (setter/getter histories; axis and transform lattices)."""
import itertools
import numpy as np
from mc.core import Group

PROPERTY = "C23"
LEVEL = "model_checking"
RULE = ("histories: all operation sequences up to the depth over the setters/getters of the three objects that own a coupled pair of axes, "
        "a reference (duration, sampling frequency, start time) model run alongside; lattices: all (sampling frequency, sample count) pairs, "
        "all unit impulses in either domain (the transforms are linear, so impulses determine them)")
TECHNIQUE = "exhaustive enumeration of setter/getter histories of the real objects against a reference model, plus exhaustive lattices for the transforms"
ASSUMPTIONS = ["arrays given to the setters have an even number of samples (a frequency axis alone does not determine an odd one)",
               "times small enough to be resolved in double precision at the 1e-10 tolerance of the even-sampling test"]


def axes(T, fs, t0):
    n = int(round(T * fs))
    return t0 + np.arange(n) / fs, np.arange(n // 2 + 1) / T


class Model:
    def __init__(self, T, fs, t0):
        self.T, self.fs, self.t0 = T, fs, t0

    def key(self):
        return (self.T, self.fs, self.t0)


OPS = {}
for T in (4, 2, 1.0, 0.3):
    OPS[f"T={T}"] = ("duration", T)
for fs in (8, 16., 10):
    OPS[f"fs={fs}"] = ("sampling_frequency", fs)
for t0 in (0, -3.5):
    OPS[f"t0={t0}"] = ("start_time", t0)
for (T, fs, t0) in ((4, 8, 1.25), (2.0, 32, 0)):
    OPS[f"times({T},{fs},{t0})"] = ("time_array", (T, fs, t0))
for (T, fs) in ((2, 16), (0.5, 8.)):
    OPS[f"freqs({T},{fs})"] = ("frequency_array", (T, fs))
OPS["read t"] = ("read", "time_array")
OPS["read f"] = ("read", "frequency_array")
OPS["bad times"] = ("bad", "time_array")
OPS["bad freqs"] = ("bad", "frequency_array")


def legal(m):
    return abs(m.T * m.fs - round(m.T * m.fs)) <= 1e-14


def apply(obj, m, op, rec, key):
    kind, arg = OPS[op]
    if kind == "read":
        read(obj, m, arg, rec, key)
    elif kind == "bad":
        try:
            setattr(obj, arg, np.array([0, 1, 2.5, 3., 4., 5.]))
        except ValueError:
            return
        rec.fail(key, "unevenly sampled array accepted")
    elif kind == "time_array":
        T, fs, t0 = arg
        a = axes(T, fs, t0)[0]
        obj.time_array = a
        m.T, m.fs, m.t0 = T, fs, t0
    elif kind == "frequency_array":
        T, fs = arg
        obj.frequency_array = axes(T, fs, 0)[1]
        m.T, m.fs = T, fs
    else:
        setattr(obj, kind, arg)
        setattr(m, {"duration": "T", "sampling_frequency": "fs", "start_time": "t0"}[kind], arg)


def read(obj, m, arr, rec, key):
    if not legal(m):
        try:
            got = getattr(obj, arr)
        except Exception:
            return
        return rec.fail(key, f"duration {m.T} and sampling frequency {m.fs} do not fit but {arr} has {len(got)} elements")
    t, f = axes(m.T, m.fs, m.t0)
    rec.close(np.asarray(getattr(obj, arr)), t if arr == "time_array" else f, key + ":" + arr, rtol=1e-12, atol=1e-12)


def make(which):
    if which == "series":
        from bilby.core.series import CoupledTimeAndFrequencySeries
        return CoupledTimeAndFrequencySeries(duration=4, sampling_frequency=8, start_time=0)
    if which == "waveform":
        from bilby.gw.waveform_generator import WaveformGenerator
        return WaveformGenerator(duration=4, sampling_frequency=8, start_time=0, frequency_domain_source_model=lambda f, a: a * f)
    from bilby.gw.detector.strain_data import InterferometerStrainData
    s = InterferometerStrainData()
    s.set_from_zero_noise(sampling_frequency=8, duration=4, start_time=0)
    return s


def history(rec, item):
    which, first, depth = item
    for rest in itertools.chain.from_iterable(itertools.product(OPS, repeat=d) for d in range(depth)):
        seq = (first,) + rest
        for last in (("time_array", "frequency_array"), ("frequency_array", "time_array")):
            if len(seq) > 3 and last[0] == "frequency_array":
                continue
            obj, m = make(which), Model(4, 8, 0)
            key = f"{which}:{','.join(seq)}>{last[0]}"
            with rec.guard(key):
                for op in seq:
                    apply(obj, m, op, rec, key)
                for a in last:
                    read(obj, m, a, rec, key)
                if m.T is not None:
                    rec.close([obj.duration, obj.sampling_frequency, obj.start_time], [m.T, m.fs, m.t0], key + ":settings", rtol=1e-12)
        rec.case(seq)
        rec.trace(1, seq)
        rec.transition(len(seq))
        rec.state((which,) + m.key())


def kwargs_init(rec, _):
    """construction with the three settings in any combination equals setting them afterwards"""
    from bilby.core.series import CoupledTimeAndFrequencySeries as S
    for T, fs, t0 in itertools.product((None, 2, 4.0), (None, 8, 16), (0, 2.5)):
        s = S(duration=T, sampling_frequency=fs, start_time=t0)
        for a in ("time_array", "frequency_array"):
            key = f"init:{T},{fs},{t0}:{a}"
            rec.case(key)
            if T is None or fs is None:
                try:
                    getattr(s, a)
                    rec.fail(key, "incomplete settings accepted")
                except ValueError:
                    pass
            else:
                rec.close(getattr(s, a), axes(T, fs, t0)[a == "frequency_array"], key, rtol=1e-12)


FS = [1, 2, 3, 7, 8, 10, 16, 100, 1000, 4096, 0.5, 0.1, 2.5, 16384., 1 / 3]


def lattice(rec, item):
    fs, lo, hi = item
    from bilby.core.utils import series as U
    for n in range(lo, hi):
        T = n / fs
        key = f"axis:{fs}:{n}"
        prod = T * fs
        if abs(prod - round(prod)) > 1e-14:
            continue
        rec.case(key)
        with rec.guard(key):
            for t0 in (0., -1.5, 1000.25):
                t = U.create_time_series(fs, T, t0)
                rec.check(len(t) == n, key, f"{len(t)} time samples instead of {n}")
                if len(t) == n:
                    rec.close(t, t0 + np.arange(n) / fs, key + ":time", rtol=1e-9, atol=1e-9 / fs)
            f = U.create_frequency_series(fs, T)
            rec.check(len(f) == n // 2 + 1, key, f"{len(f)} frequencies for {n} samples")
            if len(f) == n // 2 + 1:
                rec.close(f, np.arange(n // 2 + 1) / T, key + ":freq", rtol=1e-9, atol=1e-12)
            if n % 2 == 0 and n >= 4:
                a, b = U.get_sampling_frequency_and_duration_from_frequency_array(f) if np.ptp(np.diff(f)) < 1e-10 else (fs, T)
                rec.close([a, b], [fs, T], key + ":from f", rtol=1e-9)
            t = np.arange(n) / fs
            if n >= 2 and np.ptp(np.diff(t)) < 1e-10:
                a, b = U.get_sampling_frequency_and_duration_from_time_array(t)
                rec.close([a, b], [fs, T], key + ":from t", rtol=1e-9)
                rec.close(U.get_sampling_frequency(t + 2), fs, key + ":from t", rtol=1e-9)
            # settings that do not fit are rejected
            for eps in (0.5, 0.25, 1e-3, 1e-9):
                bad = (n + eps) / fs
                for g in (U.create_time_series, U.create_frequency_series):
                    try:
                        g(fs, bad)
                        rec.fail(key + f":illegal:{eps}", f"{g.__name__}({fs},{bad}) accepted")
                    except U.IllegalDurationAndSamplingFrequencyException:
                        pass


def transform(rec, item):
    fs, n = item
    from bilby.core.utils import series as U
    key = f"fft:{fs}:{n}"
    T = n / fs
    nf = n // 2 + 1
    f = np.arange(nf) / T
    with rec.guard(key):
        for j in range(n):
            x = np.zeros(n)
            x[j] = 1.7
            x0 = x.copy()
            X, ff = U.nfft(x, fs)
            rec.case((fs, n, j))
            rec.check(np.array_equal(x, x0), key, "nfft changed its input")
            rec.close(ff, f, key + ":axis", rtol=1e-9, atol=1e-12)
            rec.close(X, 1.7 * np.exp(-2j * np.pi * f * j / fs) / fs, key + ":nfft", rtol=1e-9, atol=1e-12)
            if n % 2 == 0:
                X0 = X.copy()
                rec.close(U.infft(X, fs), x, key + ":inverse", rtol=1e-9, atol=1e-12)
                rec.check(np.array_equal(X, X0), key, "infft changed its input")
        if n % 2 == 0:
            for k in range(nf):
                for ph in (1, 1j):
                    if ph == 1j and k in (0, nf - 1):
                        continue
                    X = np.zeros(nf, dtype=complex)
                    X[k] = ph
                    x = U.infft(X, fs)
                    rec.case((fs, n, "f", k, ph))
                    t = np.arange(n) / fs
                    w = 1 if k in (0, nf - 1) else 2
                    rec.close(x, w / T * np.real(ph * np.exp(2j * np.pi * k * np.arange(n) / n)), key + ":infft", rtol=1e-9, atol=1e-9 * fs)
                    rec.close(U.nfft(x, fs)[0], X, key + ":inverse f", rtol=1e-9, atol=1e-12)


def strain(rec, item):
    """a strain series put in as one domain reads back as its transform in the other"""
    n, fs, t0 = item
    from bilby.gw.detector.strain_data import InterferometerStrainData
    T = n / fs
    rng = np.random.default_rng(3)
    for kind in ("impulse", "random"):
        x = np.zeros(n) if kind == "impulse" else rng.normal(size=n)
        x[n // 3] += 1
        key = f"strain:{n},{fs},{t0}:{kind}"
        rec.case(key)
        with rec.guard(key):
            s = InterferometerStrainData(minimum_frequency=0, roll_off=0.0)
            s.set_from_time_domain_strain(x.copy(), sampling_frequency=fs, duration=T, start_time=t0)
            X = np.fft.rfft(x) / fs
            rec.close(np.asarray(s.frequency_domain_strain), X, key + ":f", rtol=1e-8)
            s2 = InterferometerStrainData(minimum_frequency=0, roll_off=0.0)
            s2.set_from_frequency_domain_strain(X.copy(), sampling_frequency=fs, duration=T, start_time=t0)
            rec.close(np.asarray(s2.time_domain_strain), x, key + ":t", rtol=1e-8)
            rec.close(s2.time_array, t0 + np.arange(n) / fs, key + ":axis")
            rec.close(s2.frequency_array, np.arange(n // 2 + 1) / T, key + ":axis")


def groups(tier, seed):
    d = 4 if tier == "quick" else 5
    H = []
    for which in ("series", "waveform", "strain"):
        dd = d if which == "series" or tier == "quick" else d - 1
        for op in OPS:
            H.append((which, op, dd))
    m = 300 if tier == "quick" else 2000
    return [
        Group("histories", H, history, 800),
        Group("init", [0], kwargs_init, 60),
        Group("lattice", [(fs, lo, lo + 50) for fs in FS for lo in range(1, m, 50)], lattice, 200),
        Group("transforms", [(fs, n) for fs in (1, 8, 100.0, 0.5, 4096) for n in list(range(2, 20)) + [32, 33, 64, 100]], transform, 100),
        Group("strain", [(n, fs, t0) for n in (4, 8, 20, 64) for fs in (4, 16., 0.5) for t0 in (0, 10.5)], strain, 100),
    ]
