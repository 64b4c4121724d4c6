"""A small gravitational-wave problem and an independent numpy evaluation of its likelihood (shared by C27, C28, C29 and C32)."""
import copy
import numpy as np
from checks.c31 import KEYS, gmst, pattern, delay

FS, T, T0 = 64., 2., 1126259461.
F = np.arange(int(FS * T) // 2 + 1) / T
BAND = {"H1": (4., 30.), "L1": (5., 28.), "V1": (6., 31.5)}
A = dict(amp=1.0, slope=-.6, tau=0.02, luminosity_distance=400., phase=0.7, ra=1.2, dec=-0.4, psi=0.5, geocent_time=T0 + 1.03)
B = dict(amp=0.7, slope=.2, tau=-0.03, luminosity_distance=650., phase=2.9, ra=4.0, dec=0.9, psi=2.1, geocent_time=T0 + 0.92)
C = dict(amp=1.3, slope=-.2, tau=0.07, luminosity_distance=230., phase=5.1, ra=3.1, dec=-1.2, psi=1.3, geocent_time=T0 + 1.11)
POINTS = dict(A=A, B=B, C=C)


def psd(name):
    k = dict(H1=1., L1=1.3, V1=2.).get(name, 1.)
    return k * 1e-3 * (1 + ((F - 15) / 10) ** 2)


def model(frequency_array, amp, slope, tau, luminosity_distance, phase, **kwargs):
    f = np.asarray(frequency_array)
    if amp > 50:
        return None
    env = amp * 100 / luminosity_distance * ((f + 1) / 16) ** slope * np.exp(-((f - 14) / 9) ** 2)
    ph = np.exp(-2j * np.pi * f * tau + 2j * phase + 0.02j * (f - 10) ** 2)
    return dict(plus=env * ph, cross=0.6j * env * ph)


def noise(name, k=1.):
    i = np.arange(len(F))
    s = dict(H1=1, L1=2, V1=3).get(name, 4)
    return k * np.sqrt(psd(name) * T / 4) * (np.sin(1.7 * s * i + .3 * s) + 1j * np.cos(2.3 * i * s + s)) * (i > 0) * (i < len(F) - 1)


def detector(name, signal=None, calibration=None):
    """a detector whose data are a fixed noise pattern, plus the projection of `signal`"""
    import bilby
    ifo = bilby.gw.detector.get_empty_interferometer(name)
    ifo.power_spectral_density = bilby.gw.detector.PowerSpectralDensity(frequency_array=F, psd_array=psd(name))
    ifo.minimum_frequency, ifo.maximum_frequency = BAND[name]
    if calibration is not None:
        ifo.calibration_model = calibration(name)
    d = noise(name)
    ifo.set_strain_data_from_frequency_domain_strain(d, sampling_frequency=FS, duration=T, start_time=T0)
    if signal is not None:
        d = d + project(ifo, signal, masked=False)
        ifo.set_strain_data_from_frequency_domain_strain(d, sampling_frequency=FS, duration=T, start_time=T0)
    return ifo


def generator(fn=None, **kw):
    import bilby
    return bilby.gw.WaveformGenerator(duration=T, sampling_frequency=FS, start_time=T0, frequency_domain_source_model=fn or model, parameter_conversion=kw.pop("parameter_conversion", lambda p: (p, [])), **kw)


def geometry(ifo):
    return {k: getattr(ifo, k) for k in KEYS}


def mask(ifo):
    return (F >= ifo.minimum_frequency) & (F <= ifo.maximum_frequency)


def project(ifo, p, masked=True, calibration=None, fn=None):
    """the signal in the detector from the defining formula"""
    pol = (fn or model)(F, **{k: v for k, v in p.items()})
    g = geometry(ifo)
    h = sum(pol[m] * pattern(g, p["ra"], p["dec"], p["geocent_time"], p["psi"], m) for m in pol)
    dt = (p["geocent_time"] - T0) + delay(g, p["ra"], p["dec"], p["geocent_time"])
    h = h * np.exp(-2j * np.pi * F * dt)
    if calibration is not None:
        h = h * calibration
    return h * mask(ifo) if masked else h


def inner(ifo, a, b):
    m = mask(ifo)
    return 4 / T * np.sum(np.conj(a[m]) * b[m] / psd(ifo.name)[m])


def data(ifo, signal=None):
    return noise(ifo.name) + (project(ifo, signal, masked=False) if signal is not None else 0)


def terms(ifo, p, signal=None, **kw):
    """<d|h> and <h|h>"""
    h = project(ifo, p, **kw)
    return inner(ifo, data(ifo, signal), h), inner(ifo, h, h).real


def ratio(ifos, p, signal=None, cal=None, fn=None):
    tot = 0.
    for ifo in ifos:
        dh, hh = terms(ifo, p, signal, calibration=None if cal is None else cal(ifo.name, p), fn=fn)
        tot += dh.real - hh / 2
    return tot


def noise_ll(ifos, signal=None):
    return sum(-inner(i, data(i, signal), data(i, signal)).real / 2 for i in ifos)


def to_frame(p, frame, tref, ref_ifo):
    """the same source in zenith/azimuth about the baseline of `frame` (two detectors) and/or with the arrival time at ref_ifo"""
    from bilby.gw import utils
    q = copy.copy(p)
    t = p["geocent_time"]
    if tref != "geocent":
        t = t + delay(geometry(ref_ifo), p["ra"], p["dec"], p["geocent_time"])
        q[f"{tref}_time"] = t
        del q["geocent_time"]
    if frame is not None:
        z, a = source_angles(p["ra"], p["dec"], t, frame)
        q["zenith"], q["azimuth"] = z, a
        del q["ra"], q["dec"]
    return q


def source_angles(ra, dec, t, frame):
    """zenith and azimuth of a sky position about a baseline, found from the forward map of the geometry library by its matrix"""
    from bilby_cython.geometry import zenith_azimuth_to_theta_phi
    dx = np.asarray(frame[0].geometry.vertex) - np.asarray(frame[1].geometry.vertex)

    def vec(z, a):
        th, ph = zenith_azimuth_to_theta_phi(z, a, dx)
        return np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
    M = np.array([vec(np.pi / 2, 0.), vec(np.pi / 2, np.pi / 2), vec(0., 0.)])
    phi = ra - gmst(t)
    n = np.array([np.cos(dec) * np.cos(phi), np.cos(dec) * np.sin(phi), np.sin(dec)])
    x, y, z = M @ n
    return float(np.arccos(z)), float(np.arctan2(y, x) % (2 * np.pi))
