"""C25: a detector's strain data are those last set (histories of data setters, settings, reads and injections against a numpy reference)."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc.core import Group

PROPERTY = "C25"
LEVEL = "model_checking"
RULE = ("all histories up to the depth over data setters (time/frequency arrays by sampling rate or axis, zero noise, noise from the spectrum, gwpy series, "
        "csv file, rejected data), settings (band, roll-off, notches), reads and injections; after each history every representation is read, in several "
        "orders, and compared with a numpy evaluation of the data last set under the current settings; a case = one history with one read order")
TECHNIQUE = "exhaustive enumeration of set/edit/read/inject histories on the real detector against an independent numpy reference model"
ASSUMPTIONS = ["band edits after an injection are not part of the histories (the injection itself is limited to the band at the time)",
               "frame files, open data and NDS channels need files or servers that are not available; they end in the gwpy setter covered here"]

SF = 1.5e-3
PSD_F = np.linspace(0, 64, 257)
POL = dict(ra=1.2, dec=-0.4, psi=0.7, geocent_time=1.1, mass_1=30., mass_2=20.)


def td(n, k):
    i = np.arange(n)
    return np.sin(0.7 * k + 1.3 * i) + 0.2 * (i % 5) + 0.1 * k


def fdd(n, k):
    i = np.arange(n)
    return (np.cos(k + 0.9 * i) + 1j * np.sin(k * 0.3 + 1.7 * i) * (i > 0) * (i < n - 1))


DATA = {  # name: (kind, T, fs, t0, array or None)
    "tA": ("t", 2, 16, 0., td(32, 1)), "tB": ("t", 1., 32., 5., td(32, 2)), "tC": ("t", 2., 16., 0., td(32, 3)),
    "fA": ("f", 2, 16, 0., fdd(17, 1)), "fB": ("f", 4., 8., 3., fdd(17, 2)), "zero": ("z", 2, 32, 1., None), "noise": ("p", 2., 16., 0., None),
    "gwpy": ("g", 2., 16., 7., td(32, 4)), "csv": ("c", 2., 8., 2., td(16, 5))}
SET = {"lo2": ("minimum_frequency", 2.), "lo0": ("minimum_frequency", 0.3), "hi5": ("maximum_frequency", 5.), "hi3.3": ("maximum_frequency", 3.3),
       "hiinf": ("maximum_frequency", np.inf), "roll.4": ("roll_off", 0.4), "roll0": ("roll_off", 0.), "roll.1": ("roll_off", 0.1),
       "notch": ("notch_list", [(1.2, 2.7)]), "nonotch": ("notch_list", None)}
READS = ["rt", "rf", "rp", "rw"]
OPS = list(DATA) + ["badt", "badf", "nan"] + list(SET) + READS + ["inject"]
ORDERS = [("p", "f", "t", "m"), ("t", "f", "p", "m"), ("m", "f", "t", "p"), ("w", "t", "p", "f")]


def spectrum():
    import bilby
    return bilby.gw.detector.PowerSpectralDensity(frequency_array=PSD_F, psd_array=SF * (1 + PSD_F))


def detector(**kw):
    import bilby
    return bilby.gw.detector.Interferometer(name="H1", power_spectral_density=spectrum(), minimum_frequency=kw.get("lo", 0.5), maximum_frequency=kw.get("hi", np.inf),
                                            length=4., latitude=46., longitude=-119., elevation=142., xarm_azimuth=126., yarm_azimuth=216.)


class Model:
    def __init__(self, lo=0.5, hi=np.inf):
        self.s = dict(minimum_frequency=lo, maximum_frequency=hi, roll_off=0.2, notch_list=None)
        self.data = None
        self.injected = False

    def axes(self):
        T, fs, t0 = self.data[1:4]
        n = int(round(T * fs))
        return np.arange(n // 2 + 1) / T, t0 + np.arange(n) / fs

    def mask(self):
        f, _ = self.axes()
        m = (f >= self.s["minimum_frequency"]) & (f <= min(self.s["maximum_frequency"], self.data[2] / 2))
        for a, b in self.s["notch_list"] or []:
            m &= ~((f > a) & (f < b))
        return m

    def window(self):
        n = len(self.axes()[1])
        al = 2 * self.s["roll_off"] / self.data[1]
        x = np.arange(n)
        w = np.ones(n)
        if al > 0:
            width = int(np.floor(al * (n - 1) / 2.0))
            a, b = x[:width + 1], x[n - width - 1:]
            w[:width + 1] = 0.5 * (1 + np.cos(np.pi * (-1 + 2.0 * a / al / (n - 1))))
            w[n - width - 1:] = 0.5 * (1 + np.cos(np.pi * (-2.0 / al + 1 + 2.0 * b / al / (n - 1))))
        return w

    def values(self):
        kind, T, fs, t0, arr = self.data[:5]
        f, t = self.axes()
        m = self.mask()
        if kind in "tgc":
            w = self.window()
            F, h, wf = np.fft.rfft(arr * w) / fs * m, arr, np.mean(w ** 2)
        else:
            F = (np.zeros(len(f), complex) if arr is None else arr) * m
            h, wf = np.fft.irfft(F) * fs, 1.
            if len(self.data) > 5:
                wf = self.data[5]
        return dict(f=F, t=h, w=wf, p=SF * (1 + f) * wf, m=m, fa=f, ta=t)


def signal(ifo, f, t0, pol=POL):
    """the projected signal over the whole axis, from the antenna patterns and the delay alone"""
    hp, hc = np.exp(-f / 4.) * (1 + 0j), 1j * np.cos(f) + 0.3
    fp = [ifo.antenna_response(pol["ra"], pol["dec"], pol["geocent_time"], pol["psi"], k) for k in ("plus", "cross")]
    dt = ifo.time_delay_from_geocenter(pol["ra"], pol["dec"], pol["geocent_time"]) + pol["geocent_time"] - t0
    return dict(plus=hp, cross=hc), (fp[0] * hp + fp[1] * hc) * np.exp(-2j * np.pi * f * dt)


def set_data(ifo, name, scratch):
    import bilby
    kind, T, fs, t0, arr = DATA[name]
    arr = None if arr is None else arr.copy()
    ta, fa = t0 + np.arange(int(T * fs)) / fs, np.arange(int(T * fs) // 2 + 1) / T
    if kind == "t":
        if name == "tB":
            ifo.strain_data.set_from_time_domain_strain(arr, time_array=ta)
        else:
            ifo.strain_data.set_from_time_domain_strain(arr, sampling_frequency=fs, duration=T, start_time=t0)
    elif kind == "f":
        if name == "fB":
            ifo.set_strain_data_from_frequency_domain_strain(arr, frequency_array=fa, start_time=t0)
        else:
            ifo.set_strain_data_from_frequency_domain_strain(arr, sampling_frequency=fs, duration=T, start_time=t0)
    elif kind == "z":
        ifo.set_strain_data_from_zero_noise(sampling_frequency=fs, duration=T, start_time=t0)
    elif kind == "p":
        bilby.core.utils.random.seed(17)
        ifo.set_strain_data_from_power_spectral_density(sampling_frequency=fs, duration=T, start_time=t0)
        bilby.core.utils.random.seed(17)
        arr, _ = spectrum().get_noise_realisation(fs, T)
    elif kind == "g":
        from gwpy.timeseries import TimeSeries
        ifo.set_strain_data_from_gwpy_timeseries(TimeSeries(arr, t0=t0, sample_rate=fs))
    elif kind == "c":
        ifo.set_strain_data_from_csv(os.path.join(scratch, "data.csv"))
    return (kind, T, fs, t0, arr)


def read(ifo, what):
    if what == "f":
        return ifo.frequency_domain_strain
    if what == "t":
        return ifo.time_domain_strain
    if what == "p":
        return ifo.power_spectral_density_array
    if what == "w":
        return ifo.strain_data.window_factor
    return ifo.frequency_mask


def run_seq(rec, seq, order, key, scratch):
    ifo, mod = detector(), Model()
    for op in seq:
        if op in DATA:
            mod.data, mod.injected = set_data(ifo, op, scratch), False
        elif op in ("badt", "badf"):
            try:
                if op == "badt":
                    ifo.strain_data.set_from_time_domain_strain(td(9, 1), sampling_frequency=4, duration=2)
                else:
                    ifo.set_strain_data_from_frequency_domain_strain(fdd(9, 1), frequency_array=np.arange(8) / 2.)
            except ValueError:
                continue
            rec.fail(f"{key}:accepted", "data of the wrong length accepted")
        elif op == "nan":
            if mod.data is None:
                try:
                    ifo.frequency_domain_strain
                except ValueError:
                    continue
                rec.fail(f"{key}:nodata", "strain read before any was set")
        elif op in SET:
            if mod.injected:
                return False
            k, v = SET[op]
            setattr(ifo.strain_data, k, list(v) if isinstance(v, list) else v)
            mod.s[k] = v
        elif mod.data is None:
            return False
        elif op == "inject":
            v = mod.values()
            pols, sig = signal(ifo, v["fa"], mod.data[3])
            par = dict(POL)
            keep = {k: p.copy() for k, p in pols.items()}
            ifo.inject_signal(parameters=par, injection_polarizations=pols, raise_error=False)
            rec.check(par == POL and all(np.array_equal(pols[k], keep[k]) for k in pols), f"{key}:arguments", "injection changed its arguments")
            F = v["f"] + sig * v["m"]
            mod.data = ("f",) + mod.data[1:4] + (F, v["w"])
            mod.injected = True
            s, p = (sig * v["m"])[v["m"]], v["p"][v["m"]]
            rho2 = 4 / mod.data[1] * np.sum(abs(s) ** 2 / p)
            rec.close(ifo.meta_data["optimal_SNR"], np.sqrt(rho2), f"{key}:optimal_SNR", 1e-9)
            if rho2 > 0:
                rec.close(ifo.meta_data["matched_filter_SNR"], 4 / mod.data[1] * np.sum(np.conj(s) * F[v["m"]] / p) / np.sqrt(rho2), f"{key}:matched_SNR", 1e-8)
            par["ra"] = -9
            rec.check(ifo.meta_data["parameters"]["ra"] == POL["ra"], f"{key}:meta", "stored injection parameters follow the caller's later edits")
        else:
            read(ifo, op[1])
        rec.transition()
    if mod.data is None:
        return False
    want = mod.values()
    for what in order:
        rec.close(read(ifo, what), want[what], f"{key}:{what}", 1e-8, 1e-9)
    for name, k in (("frequency_array", "fa"), ("time_array", "ta")):
        rec.close(getattr(ifo, name), want[k], f"{key}:{name}", 1e-11, 1e-9)
    for name, i in (("duration", 1), ("sampling_frequency", 2), ("start_time", 3)):
        rec.close(getattr(ifo, name), mod.data[i], f"{key}:{name}", 1e-11, 1e-9)
    rec.close(ifo.maximum_frequency, min(mod.s["maximum_frequency"], mod.data[2] / 2), f"{key}:maximum_frequency")
    rec.close(ifo.amplitude_spectral_density_array, np.sqrt(want["p"]), f"{key}:asd", 1e-9)
    _, sig = signal(ifo, want["fa"], mod.data[3])
    big = np.where(want["m"], sig, 1e30)  # whatever lies outside the band must not matter
    m = want["m"]
    rec.close(ifo.optimal_snr_squared(big), 4 / mod.data[1] * np.sum(abs(sig[m]) ** 2 / want["p"][m]), f"{key}:snr", 1e-9)
    rec.close(ifo.inner_product(big), 4 / mod.data[1] * np.sum(np.conj(sig[m]) * want["f"][m] / want["p"][m]), f"{key}:inner", 1e-9, 1e-9)
    rec.state((seq[-1], mod.data[0], mod.data[1:4], tuple(sorted((k, str(v)) for k, v in mod.s.items()))))
    return True


def history(rec, item):
    first, depth, orders = item
    scratch = tempfile.mkdtemp(prefix="c25_")
    try:
        a = DATA["csv"]
        with open(os.path.join(scratch, "data.csv"), "w") as fh:
            fh.writelines(f"{t!r},{h!r}\n" for t, h in zip((a[3] + np.arange(16) / 8.).tolist(), a[4].tolist()))
        for d in range(depth):
            for rest in itertools.product(OPS, repeat=d):
                seq = first + rest
                for order in orders:
                    key = ">".join(seq) + "|" + "".join(order)
                    done = False
                    with rec.guard(key):
                        done = run_seq(rec, seq, order, key, scratch)
                    if done:
                        rec.case((seq, order) if len(seq) > 1 else None)
                        rec.trace(1, key)
                    elif done is False:
                        break
    finally:
        shutil.rmtree(scratch)


def injections(rec, item):
    """each injection adds its projected signal once, by either route; a request without a signal is refused and changes nothing"""
    from bilby.gw.waveform_generator import WaveformGenerator
    base, routes = item
    scratch = None
    ifo, mod = detector(lo=1.), Model(lo=1.)
    mod.data = set_data(ifo, base, scratch)
    v = mod.values()
    F = v["f"]
    key = f"inject:{base}:{routes}"
    rec.case(key)
    rec.trace(1, key)
    for n, route in enumerate(routes):
        par = dict(POL, geocent_time=mod.data[3] + 0.4 * n, ra=1 + 0.3 * n)
        if route == "late":
            par["geocent_time"] += 100
        keep = dict(par)
        pols, sig = signal(ifo, v["fa"], mod.data[3], par)
        with rec.guard(key):
            if route == "none":
                try:
                    ifo.inject_signal(parameters=par, raise_error=False)
                    rec.fail(key, "injection without a signal accepted")
                except ValueError:
                    pass
                sig = 0
            elif route == "generator":
                wg = WaveformGenerator(duration=mod.data[1], sampling_frequency=mod.data[2], start_time=mod.data[3],
                                       frequency_domain_source_model=lambda frequency_array, mass_1, mass_2, ra, dec, psi, geocent_time: signal(ifo, frequency_array, 0)[0],
                                       parameter_conversion=lambda p: (dict(p), []))
                out = ifo.inject_signal(parameters=par, waveform_generator=wg, raise_error=False)
                rec.close(out["plus"], pols["plus"], key, message="returned polarisations")
            else:
                ifo.inject_signal(parameters=par, injection_polarizations=pols, raise_error=False)
            F = F + sig * v["m"]
            rec.check(par == keep, key, "parameters changed")
            rec.close(ifo.frequency_domain_strain, F, key, 1e-9, 1e-11)
            if base != "tA" or set(routes[:n + 1]) != {"none"}:  # (untouched time series are not windowed)
                rec.close(ifo.time_domain_strain, np.fft.irfft(F) * mod.data[2], key, 1e-9, 1e-10)
            rec.transition()


def tooshort(rec, item):
    """a signal longer than the data is refused (unless only a warning was asked for) without touching the data"""
    m1, m2, raise_error = item
    ifo = detector(lo=20.)
    ifo.set_strain_data_from_zero_noise(sampling_frequency=128, duration=1)
    f = ifo.frequency_array
    par = dict(POL, mass_1=m1, mass_2=m2, geocent_time=0.5)
    pols, _ = signal(ifo, f, 0.)
    tau = 5. / 256 * (np.pi * 20.) ** (-8 / 3) * (4.925490947e-6 * (m1 * m2) ** .6 / (m1 + m2) ** .2) ** (-5 / 3)
    key = f"duration:{item}"
    rec.case(key)
    try:
        ifo.inject_signal(parameters=par, injection_polarizations=pols, raise_error=raise_error)
        rec.check(tau < 1.3 or not raise_error, key, f"signal of {tau} s injected into 1 s of data")
        rec.check(np.any(ifo.frequency_domain_strain != 0), key, "signal not added")
    except ValueError:
        rec.check(raise_error and tau > 0.7, key, f"refused although the signal lasts {tau} s")
        rec.check(not np.any(ifo.frequency_domain_strain), key, "refused injection changed the data")


def filters(rec, item):
    """filtering and spectrum estimation act on the current time series whatever was read before"""
    import bilby
    reads, what = item
    fs, T = 64, 8
    i = np.arange(fs * T)
    h = np.sin(2 * np.pi * 3.1 * i / fs) + np.cos(2 * np.pi * 25 * i / fs) + 0.1 * np.sin(i ** 2 / 50.)
    key = f"filter:{what}:{reads}"
    rec.case(key)
    ifo = detector()
    ifo.strain_data.set_from_time_domain_strain(h.copy(), sampling_frequency=fs, duration=T, start_time=10.)
    for r in reads:
        read(ifo, r)
    with rec.guard(key):
        if what == "lowpass":
            ifo.maximum_frequency = 10.
            ifo.strain_data.low_pass_filter()
            new = np.array(ifo.time_domain_strain)
            ref = detector(hi=10.)
            ref.strain_data.set_from_time_domain_strain(new, sampling_frequency=fs, duration=T, start_time=10.)
            rec.check(np.max(abs(new - h)) > .1, key, "nothing filtered")
            rec.close(ifo.frequency_domain_strain, ref.frequency_domain_strain, key, 1e-9, 1e-11)
            rec.close(ifo.power_spectral_density_array, ref.power_spectral_density_array, key)
        else:
            start = what
            f, p = ifo.strain_data.create_power_spectral_density(2, analysis_segment_start_time=start)
            t = ifo.time_array
            keep = h if start is None or not (start > t[0] and start + 2 < t[-1]) else h[(t < start) | (t > start + 2)]
            ref = bilby.gw.detector.InterferometerStrainData()
            from gwpy.timeseries import TimeSeries
            ref = TimeSeries(keep, sample_rate=fs).psd(fftlength=2, overlap=0, window=("tukey", 0.2))
            rec.close(f, ref.frequencies.value, key)
            rec.close(p, ref.value, key, 1e-9, 1e-15)


def pickles(rec, item):
    """saving and loading a detector keeps everything, whatever was read before"""
    import bilby
    name, reads, label = item
    key = f"pickle:{item}"
    rec.case(key)
    scratch = tempfile.mkdtemp(prefix="c25_")
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        with rec.guard(key):
            ifo, mod = detector(), Model()
            mod.data = set_data(ifo, name, scratch)
            for r in reads:
                read(ifo, r)
            ifo.to_pickle(outdir="sub/dir", **({} if label is None else dict(label=label)))
            files = os.listdir("sub/dir")
            rec.check(files == [f"{label or 'H1'}.pkl"] and os.listdir(".") == ["sub"], key, f"files {files} {os.listdir('.')}")
            got = bilby.gw.detector.Interferometer.from_pickle(os.path.join("sub/dir", files[0]))
            rec.check(got == ifo, key, "loaded detector differs")
            want = mod.values()
            for what in "wpft":
                rec.close(read(got, what), want[what], f"{key}:{what}", 1e-8, 1e-9)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch)


def groups(tier, seed):
    ops = OPS
    if tier == "quick":
        H = [((a,), 1, ORDERS) for a in ops] + [((a, b), 2, ORDERS[:3]) for a in ops for b in ops]
    else:
        H = [((a,), 2, ORDERS) for a in ops] + [((a, b), 3, ORDERS) for a in ops for b in ops]
    inj = [(b, r) for b in ("tA", "fA", "fB", "zero", "noise") for n in (1, 2, 3)
           for r in itertools.product(("pols", "generator", "none", "late"), repeat=n)]
    short = [(a, b, r) for a, b in ((30., 20.), (8., 8.), (5., 1.4), (1.4, 1.4), (60., 30.), (12., 3.)) for r in (True, False)]
    fl = [(r, w) for r in ("", "f", "t", "pf", "wt") for w in ("lowpass", None, 11., 13.5, 17.9, 10., 9.)]
    pk = [(d, r, lab) for d in ("tA", "fB", "zero", "gwpy") for r in ("", "f", "t", "p") for lab in (None, "mine")]
    return [Group("histories", H, history, 850), Group("injections", inj, injections, 60), Group("durations", short, tooshort, 60),
            Group("filters", fl, filters, 60), Group("pickles", pk, pickles, 60)]
