"""C31: detector geometry and projection follow the detector's current description."""
import copy
import itertools
import pickle
import numpy as np
from mc.core import Group

PROPERTY = "C31"
LEVEL = "model_checking"
RULE = ("every interleaving of geometry edits and reads up to the depth, on the real detector, states merged by the detector's complete instance data; all position/orientation/"
        "sky/time/polarisation lattices; all projection requests over mode subsets x bands x frequency arguments x edits; a case = one read compared with the independent expression")
TECHNIQUE = "explicit-state exploration of edit/read histories of the real detector objects with a from-scratch geometric oracle; exhaustive direction/orientation lattices"
ASSUMPTIONS = ["Greenwich mean sidereal time from lal (checked against bilby_cython's through the delays)", "arrays handed out by the detector are not written to in place by the user"]

C = 299792458.0
MODES = ["plus", "cross", "x", "y", "breathing", "longitudinal"]
KEYS = ["latitude", "longitude", "elevation", "xarm_azimuth", "yarm_azimuth", "xarm_tilt", "yarm_tilt"]
BASE = dict(latitude=46.455, longitude=-119.4077, elevation=142.554, xarm_azimuth=125.9994, yarm_azimuth=215.9994, xarm_tilt=-6.195e-4, yarm_tilt=1.25e-5)
ALT = dict(latitude=-31.25, longitude=115.7, elevation=51.0, xarm_azimuth=2.0, yarm_azimuth=100.0, xarm_tilt=0.3, yarm_tilt=-0.2)
T0 = 1126259462.4


# ------------------------------------------------------------- independent geometry
def position(d):
    a, b = 6378137.0, 6356752.314245
    la, lo = np.radians(d["latitude"]), np.radians(d["longitude"])
    N = a * a / np.sqrt((a * np.cos(la)) ** 2 + (b * np.sin(la)) ** 2)
    h = d["elevation"]
    return np.array([(N + h) * np.cos(la) * np.cos(lo), (N + h) * np.cos(la) * np.sin(lo), ((b / a) ** 2 * N + h) * np.sin(la)])


def arm(d, w):
    la, lo = np.radians(d["latitude"]), np.radians(d["longitude"])
    east = np.array([-np.sin(lo), np.cos(lo), 0])
    up = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    north = np.cross(up, east)
    az, ti = np.radians(d[w + "arm_azimuth"]), d[w + "arm_tilt"]
    return np.cos(ti) * (np.cos(az) * east + np.sin(az) * north) + np.sin(ti) * up


def tensor(d):
    x, y = arm(d, "x"), arm(d, "y")
    return 0.5 * (np.outer(x, x) - np.outer(y, y))


def gmst(t):
    import lal
    return lal.GreenwichMeanSiderealTime(lal.LIGOTimeGPS(float(t))) % (2 * np.pi)


def towards(ra, dec, t):
    p = ra - gmst(t)
    return np.array([np.cos(dec) * np.cos(p), np.cos(dec) * np.sin(p), np.sin(dec)])


def pattern(d, ra, dec, t, psi, mode):
    p = ra - gmst(t)
    west = np.array([np.sin(p), -np.cos(p), 0])  # decreasing right ascension
    north = np.array([-np.sin(dec) * np.cos(p), -np.sin(dec) * np.sin(p), np.cos(dec)])
    # X is rotated by psi from west towards north; (X, Y, propagation) is right handed
    X = np.cos(psi) * west + np.sin(psi) * north
    Z = -towards(ra, dec, t)
    Y = np.cross(Z, X)
    e = {"plus": np.outer(X, X) - np.outer(Y, Y), "cross": np.outer(X, Y) + np.outer(Y, X), "x": np.outer(X, Z) + np.outer(Z, X),
         "y": np.outer(Y, Z) + np.outer(Z, Y), "breathing": np.outer(X, X) + np.outer(Y, Y), "longitudinal": np.outer(Z, Z)}[mode]
    return float(np.sum(tensor(d) * e))


def delay(d, ra, dec, t):
    return -float(position(d) @ towards(ra, dec, t)) / C


def make(d, name="X1", psd=True, **kw):
    import bilby
    f = np.linspace(0, 64, 65)
    a = dict(name=name, power_spectral_density=bilby.gw.detector.PowerSpectralDensity(frequency_array=f, psd_array=1e-2 * (1 + f)), minimum_frequency=5., maximum_frequency=60., length=4., **d)
    a.update(kw)
    ifo = bilby.gw.detector.Interferometer(**a)
    ifo.set_strain_data_from_zero_noise(sampling_frequency=128, duration=2, start_time=T0 - 1)
    return ifo


# ------------------------------------------------------------- histories
READS = ["vertex", "x", "y", "detector_tensor", "pattern", "delay"]


def read(ifo, d, what, rec, key, via):
    g = ifo.geometry if via else ifo
    if what == "vertex":
        rec.close(g.vertex, position(d), key, 0, 1e-3)
    elif what in "xy":
        rec.close(getattr(g, what), arm(d, what), key, 0, 1e-11)
        rec.close(g.unit_vector_along_arm(what) if via else ifo.geometry.unit_vector_along_arm(what), arm(d, what), key, 0, 1e-11)
    elif what == "detector_tensor":
        rec.close(g.detector_tensor, tensor(d), key, 0, 1e-11)
    elif what == "pattern":
        rec.close(ifo.antenna_response(1.2, -0.4, T0, 0.7, "plus"), pattern(d, 1.2, -0.4, T0, 0.7, "plus"), key, 0, 1e-9)
    elif what == "delay":
        rec.close(ifo.time_delay_from_geocenter(1.2, -0.4, T0), delay(d, 1.2, -0.4, T0), key, 0, 1e-11)
    rec.case(key)


def signature(g):
    """everything the geometry object stores"""
    def s(v):
        return (v.shape, v.tobytes()) if isinstance(v, np.ndarray) else repr(v) if not hasattr(v, "__dict__") else signature(v)
    return tuple((k, s(v)) for k, v in sorted(vars(g).items()))


def histories(rec, item):
    keys, depth, via = item
    ifo0 = make(BASE)
    front = {(signature(ifo0.geometry), ()): (ifo0.geometry, frozenset())}
    seen = set(front)
    ops = [("set", k) for k in keys] + [("read", w) for w in READS] + [("copy",), ("pickle",)]
    host = ifo0
    for level in range(depth):
        new = {}
        for (sg, _), (geo, alt) in front.items():
            for op in ops:
                host.geometry = g = copy.deepcopy(geo)
                d = {k: (ALT if k in alt else BASE)[k] for k in KEYS}
                al = alt
                key = f"{keys}/{via}/L{level}/{sorted(alt)}/{op}"
                with rec.guard(key):
                    if op[0] == "set":
                        al = alt ^ {op[1]}
                        v = (ALT if op[1] in al else BASE)[op[1]]
                        setattr(g if via else host, op[1], v)
                        rec.check(abs(getattr(g, op[1]) - v) < 1e-9 and abs(getattr(host, op[1]) - v) < 1e-9, key, "setting not read back")
                    elif op[0] == "read":
                        read(host, d, op[1], rec, key, via)
                    else:
                        h = copy.deepcopy(host) if op[0] == "copy" else pickle.loads(pickle.dumps(host))
                        g = h.geometry
                rec.transition()
                k = (signature(g), ())
                if (k, al) not in seen:
                    seen.add((k, al))
                    rec.state((hash(k), al))
                    new[(k[0], tuple(sorted(al)))] = (g, al)
                    # every reader, each first, from the new state
                    d = {q: (ALT if q in al else BASE)[q] for q in KEYS}
                    for w in READS:
                        host.geometry = copy.deepcopy(g)
                        with rec.guard(key + "/" + w):
                            read(host, d, w, rec, key + "/" + w, via)
        front = new
    rec.trace(len(seen))


# ------------------------------------------------------------- lattices
SKY = [(ra, dec) for ra in (0., 0.3, 2.0, np.pi, 4.4, 6.28) for dec in (-np.pi / 2, -1.0, 0., 0.4, 1.5, np.pi / 2)]


def lattice(rec, item):
    d = dict(zip(KEYS, item))
    ifo = make(d)
    key = f"lat/{item}"
    with rec.guard(key):
        for w in READS[:4]:
            for via in (False, True):
                read(ifo, d, w, rec, key + w, via)
        for (ra, dec), t, psi in itertools.product(SKY, (T0, 9e8 + 0.25, 1.4e9), (0., 0.7, 3.0)):
            for m in MODES:
                rec.close(ifo.antenna_response(ra, dec, t, psi, m), pattern(d, ra, dec, t, psi, m), f"{key}/{m}/{ra}/{dec}/{t}/{psi}", 0, 2e-9)
            if psi == 0:
                rec.close(ifo.time_delay_from_geocenter(ra, dec, t), delay(d, ra, dec, t), f"{key}/{ra}/{dec}/{t}", 0, 1e-11)
        rec.check(ifo.antenna_response(1., 1., T0, 1., "X1") == 1, key, "the detector's own mode")
        rec.check(ifo.antenna_response(1., 1., T0, 1., "Y1") == 0, key, "another detector's mode")
        rec.case(key)


def known(rec, name):
    """the shipped detectors against lal's catalogue of the same sites"""
    import bilby
    import lal
    ref = {x.frDetector.prefix: x for x in lal.CachedDetectors}
    key = f"known/{name}"
    with rec.guard(key):
        ifo = bilby.gw.detector.get_empty_interferometer(name)
        d = {k: getattr(ifo, k) for k in KEYS}
        for w in READS:
            read(ifo, d, w, rec, key, False)
        r = ref[{"GEO600": "G1"}.get(name, name)]
        rec.check(np.linalg.norm(ifo.vertex - r.location) < 5., key, f"{ifo.vertex - r.location}")
        rec.check(np.max(np.abs(ifo.detector_tensor - r.response)) < 2e-3, key, f"{ifo.detector_tensor - r.response}")
        for (ra, dec), psi in itertools.product(SKY, (0., 0.7)):
            fp, fc = lal.ComputeDetAMResponse(np.array(r.response, dtype=np.float32), ra, dec, psi, gmst(T0))
            rec.close(ifo.antenna_response(ra, dec, T0, psi, "plus"), fp, key, 0, 5e-3)
            rec.close(ifo.antenna_response(ra, dec, T0, psi, "cross"), fc, key, 0, 5e-3)
        rec.case(key)


def triangle(rec, item):
    import bilby
    key = f"triangle/{item}"
    with rec.guard(key):
        lat, lon, el, xaz, yaz, L, tilt = item
        net = bilby.gw.detector.TriangularInterferometer("ET", bilby.gw.detector.PowerSpectralDensity(frequency_array=np.arange(9.), psd_array=np.ones(9)),
                                                         5., 60., L, lat, lon, el, xaz, yaz, tilt, 0.)
        rec.check([i.name for i in net] == ["ET1", "ET2", "ET3"], key, "names")
        first = dict(latitude=lat, longitude=lon, elevation=el, xarm_azimuth=xaz, yarm_azimuth=yaz, xarm_tilt=tilt, yarm_tilt=0.)
        for w in READS:
            read(net[0], first, w, rec, key, False)
        pos = [position({k: getattr(i, k) for k in KEYS}) for i in net]
        off = [abs(np.linalg.norm(pos[i] - pos[j]) / (L * 1e3) - 1) for i, j in ((0, 1), (1, 2), (2, 0))]
        if max(off) > 2e-2:
            # known: the step in longitude is not corrected for the latitude (nothing else may be wrong)
            flat = all(abs(net[i + 1].longitude - net[i].longitude - np.degrees(L * 1e3 * np.cos(np.radians(net[i].yarm_azimuth)) / 6371e3)) < 2e-3 * L / 10
                       and abs(net[i + 1].latitude - net[i].latitude - np.degrees(L * 1e3 * np.sin(np.radians(net[i].yarm_azimuth)) / 6371e3)) < 2e-3 * L / 10 for i in range(2))
            rec.fail("triangle-longitude-step" if flat else key, f"sides are off by {off}")
        # the arms of each vertex run along the sides
        for i in range(3):
            sides = [(pos[j] - pos[i]) / np.linalg.norm(pos[j] - pos[i]) for j in range(3) if j != i]
            tol = 0.999 if max(off) < 2e-2 else 0.85
            rec.check(max(np.dot(net[i].x, s) for s in sides) > tol and max(np.dot(net[i].y, s) for s in sides) > tol and abs(np.dot(net[i].x, net[i].y) - 0.5) < 1e-2, key,
                      f"arms {i}: {[np.dot(net[i].x, s) for s in sides]} {[np.dot(net[i].y, s) for s in sides]}")
        # closed triangle: no response to a plane wave in the sum
        rec.check(np.max(np.abs(sum(i.detector_tensor for i in net))) < 1e-2, key, "null stream")
        rec.case(key)


# ------------------------------------------------------------- frames
def frames(rec, item):
    import bilby
    from bilby.gw.utils import zenith_azimuth_to_ra_dec, zenith_azimuth_to_theta_phi
    from bilby_cython.geometry import rotation_matrix_from_delta
    (a, b), t = item
    ifos = [bilby.gw.detector.get_empty_interferometer(n) for n in (a, b)]
    v = [position({k: getattr(i, k) for k in KEYS}) for i in ifos]
    R = rotation_matrix_from_delta(v[0] - v[1])
    pts = [(z, az) for z in (0.05, 0.5, 1.3, np.pi / 2, 2.2, 3.1) for az in (0., 0.4, 1.6, 3.0, 4.9, 6.2)]
    key = f"frame/{item}"
    out = []
    with rec.guard(key):
        for z, az in pts:
            ra, dec = zenith_azimuth_to_ra_dec(z, az, t, ifos)
            th, ph = zenith_azimuth_to_theta_phi(z, az, ifos)
            rec.check(0 <= ra < 2 * np.pi and -np.pi / 2 <= dec <= np.pi / 2, key, f"range {ra} {dec}")
            n = towards(ra, dec, t)
            rec.close(n, np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)]), key, 0, 1e-9, "theta/phi")
            local = np.array([np.sin(z) * np.cos(az), np.sin(z) * np.sin(az), np.cos(z)])
            rec.close(n, R @ local, key, 0, 1e-9, f"{z} {az}")
            # the zenith fixes the arrival-time difference
            dt = ifos[1].time_delay_from_geocenter(ra, dec, t) - ifos[0].time_delay_from_geocenter(ra, dec, t)
            rec.close(dt, np.linalg.norm(v[0] - v[1]) / C * np.cos(z), key, 0, 1e-9, "arrival difference")
            out.append((local, n))
            rec.case((key, z, az))
        A, B = np.array([x for x, _ in out]), np.array([y for _, y in out])
        rec.close(A @ A.T, B @ B.T, key, 0, 1e-9, "angles between directions")
        rec.check(np.linalg.det(np.linalg.lstsq(A, B, rcond=None)[0]) > 0.99, key, "orientation")


# ------------------------------------------------------------- projection
def project(rec, item):
    modes, edit, freqs, band, reverse = item
    key = f"project/{item}"
    with rec.guard(key):
        d = dict(BASE)
        ifo = make(d)
        ifo.antenna_response(0.1, 0.2, T0, 0.3, "plus"), ifo.vertex  # fill whatever is cached
        t0 = T0 - 1
        if edit in KEYS:
            setattr(ifo, edit, ALT[edit])
            d[edit] = ALT[edit]
        elif edit == "data":
            ifo.set_strain_data_from_zero_noise(sampling_frequency=64, duration=4, start_time=T0 - 3.3)
            t0 = T0 - 3.3
        elif edit == "start":
            ifo.strain_data.start_time = t0 = T0 - 0.3
        if band:
            ifo.minimum_frequency, ifo.maximum_frequency = 12., 30.
        lo, hi = (12., 30.) if band else (5., 60.)
        n = len(ifo.frequency_array)
        f_all = np.arange(n) * (1 / 4 if edit == "data" else 1 / 2)
        sel = None if freqs is None else f_all[3:n - 5:freqs]
        f = f_all if sel is None else sel
        hs = {m: (1 + 0.1 * i) * np.exp(1j * 0.05 * (i + 1) * f) * (1 + f) ** -0.5 for i, m in enumerate(["plus", "cross", "x", "y", "breathing", "longitudinal", "X1", "Y1"])}
        pol = {m: hs[m].copy() for m in (modes[::-1] if reverse else modes)}
        keep = {m: v.copy() for m, v in pol.items()}
        for par in (dict(ra=1.2, dec=-0.4, geocent_time=T0, psi=0.7), dict(ra=4.0, dec=1.1, geocent_time=T0 - 0.25, psi=0.0, mass_1=3.)):
            pk = dict(par)
            got = ifo.get_detector_response(pol, par) if sel is None else ifo.get_detector_response(pol, par, frequencies=sel.copy())
            sky = (par["ra"], par["dec"], par["geocent_time"])
            resp = {m: pattern(d, *sky, par["psi"], m) if m in MODES else float(m == "X1") for m in modes}
            dt = par["geocent_time"] - t0 + delay(d, *sky)
            exp = sum(resp[m] * hs[m] for m in modes) * np.exp(-2j * np.pi * f * dt)
            if sel is None:
                exp = exp * ((f >= lo) & (f <= hi))
            rec.close(got, exp, key, 0, 3e-6, f"{par}")
            rec.check(par == pk and list(pol) == list(keep) and all(np.array_equal(pol[m], keep[m]) for m in pol), key, "inputs changed")
            again = ifo.get_detector_response(pol, par) if sel is None else ifo.get_detector_response(pol, par, frequencies=sel.copy())
            rec.check(np.array_equal(got, again), key, "repeated request differs")
            # linear in the polarisations
            half = [ifo.get_detector_response(p, par) if sel is None else ifo.get_detector_response(p, par, frequencies=sel.copy())
                    for p in ({m: pol[m] for m in modes[:1]}, {m: 2 * pol[m] for m in modes[1:]}) if p]
            rec.close(half[0] + (half[1] / 2 if len(half) > 1 else 0), got, key, 0, 1e-12, "linearity")
            rec.case((key, par["ra"]))


def groups(tier, seed):
    deep = tier != "quick"
    trip = list(itertools.combinations(KEYS, 3)) + [("latitude", "longitude", "xarm_azimuth", "yarm_azimuth", "elevation")]
    depth = 5 if deep else 4
    hist = [(k, depth, via) for k in trip for via in (False, True)] + [(tuple(KEYS), 4 if deep else 3, via) for via in (False, True)]
    lat = list(itertools.product((-90., -31.25, 0., 46.5, 90.), (-180., -119.4, 0., 115.7), (0., 2500.), (0., 126., 270.), (90., 215.99), (0., -0.01) if deep else (-0.01,), (0., 0.3)))
    if not deep:
        lat = [x for i, x in enumerate(lat) if i % 4 == (i // 16) % 4]
    sub = [m for n in (1, 2) for m in itertools.combinations(MODES + ["X1", "Y1"], n)] + [tuple(MODES), tuple(MODES + ["X1"])]
    proj = list(itertools.product(sub, [None, "data", "start"] + KEYS, (None, 1, 3), (False, True), (False, True) if deep else (True,)))
    pairs = [(p, t) for p in itertools.permutations(["H1", "L1", "V1", "K1"], 2) for t in (T0, 9e8, 1.3e9)]
    tri = list(itertools.product((43.6, -20., 0.), (10.5, 150.), (50.,), (70.5675, 0., 200.), (130.5675,), (10., 3.), (0.,)))
    tri = [(a, b, c, x, x + 60, l, t) for a, b, c, x, _, l, t in tri]
    return [Group("histories", hist, histories, 500), Group("lattice", lat, lattice, 120), Group("known", ["H1", "L1", "V1", "K1", "GEO600"], known, 60),
            Group("triangle", tri, triangle, 60), Group("frames", pairs, frames, 60), Group("projection", proj, project, 120)]
