"""C30: source-parameter conversions are mutually consistent."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Group

PROPERTY = "C30"
LEVEL = "exploration"
RULE = ("every subset of the mass, source-frame mass, distance, spin and tidal keys x a lattice of sources x every container kind through every conversion entry point; each output is "
        "compared with the source it was made from by independent formulas, with its own input (nothing changed, dropped or modified in place) and between containers; a case = one conversion")
TECHNIQUE = "exhaustive enumeration of key subsets x source lattice x containers against independent source formulas"
ASSUMPTIONS = ["cosmological distances are those of astropy", "spin frame transformation checked against the total angular momentum computed here at the order documented by lalsimulation"]

MS = 1.988409902147041637325262574352366540e30
REL = 2e-6  # the least well conditioned route (equal masses from chirp mass and total mass) loses half of the digits


def source(m1, q, z=None):
    import astropy.cosmology as cosmo
    m2 = m1 * q
    d = dict(mass_1=m1, mass_2=m2, total_mass=m1 + m2, chirp_mass=(m1 * m2) ** .6 / (m1 + m2) ** .2, mass_ratio=q, symmetric_mass_ratio=m1 * m2 / (m1 + m2) ** 2)
    if z is not None:
        d.update(redshift=z, luminosity_distance=cosmo.Planck15.luminosity_distance(z).value, comoving_distance=cosmo.Planck15.comoving_distance(z).value)
        for k in ("mass_1", "mass_2", "total_mass", "chirp_mass"):
            d[k + "_source"] = d[k] / (1 + z)
    return d


CONTAINERS = ["float", "np", "array", "frame", "frame_index"]


def pack(dicts, how):
    """one container (or one per dict for the scalar kinds)"""
    if how == "float":
        return [{k: float(v) for k, v in d.items()} for d in dicts]
    if how == "np":
        return [{k: np.float64(v) for k, v in d.items()} for d in dicts]
    cols = {k: np.array([d[k] for d in dicts], dtype=float) for k in dicts[0]}
    if how == "array":
        return [cols]
    return [pd.DataFrame(cols, index=None if how == "frame" else [7 - 2 * i for i in range(len(dicts))])]


def col(outs, key, n):
    if len(outs) == n and not isinstance(outs[0], pd.DataFrame) and all(np.ndim(o[key]) == 0 for o in outs):
        v = [o[key] for o in outs]
    else:
        v = np.broadcast_to(np.asarray(outs[0][key]), (n,))
    if any(np.iscomplexobj(x) for x in v):
        return np.full(n, np.nan)
    return np.array([float(x) for x in v])


def has(outs, key):
    return all(key in o for o in outs)


def freeze(x):
    return {k: np.array(x[k], copy=True) for k in x}, list(x.keys())


def run(rec, key, func, packs):
    outs, ok = [], True
    for p in packs:
        before = freeze(p)
        out = func(p)
        if isinstance(out, tuple):
            added = out[1]
            rec.check(sorted(added) == sorted(k for k in out[0].keys() if k not in before[1]), key + "/added", f"{added}")
            out = out[0]
        now = freeze(p)
        rec.check(now[1] == before[1] and all(np.array_equal(now[0][k], before[0][k]) for k in before[1]), key + "/input", "input modified")
        rec.check(out is not p, key + "/input", "input returned")
        rec.check(isinstance(out, type(p)), key + "/type", f"{type(out)}")
        if isinstance(p, pd.DataFrame):
            rec.check(list(out.index) == list(p.index), key + "/index", "table index")
        rec.check(all(k in out for k in before[1]), key + "/dropped", f"{set(before[1]) - set(out.keys())}")
        outs.append(out)
    rec.case(key)
    return outs


# --------------------------------------------------------------------- masses
MASS = ["mass_1", "mass_2", "total_mass", "chirp_mass", "mass_ratio", "symmetric_mass_ratio"]


def sufficient(keys):
    s = set(keys)
    return len(s) >= 2 and not s <= {"mass_ratio", "symmetric_mass_ratio"}


def ordered(keys):
    """does the subset say which body is the lighter one?"""
    s = set(keys)
    return bool(s & {"mass_ratio"}) or {"mass_1", "mass_2"} <= s or {"mass_1", "total_mass"} <= s or {"mass_2", "total_mass"} <= s


def masses(rec, item):
    from bilby.gw import conversion as c
    keys, how, src = item
    suffix = "_source" if src else ""
    q = [1., 0.9, 0.5, 0.25, 0.31, 0.04]
    if ordered(keys):
        q = q + [1.7, 5.]
    full = [source(m1, x) for x in q for m1 in (1.4, 35.5)]
    if src:
        full = [{k + ("" if "ratio" in k else "_source"): v for k, v in d.items()} for d in full]
    names = [k + ("" if "ratio" in k else suffix) for k in keys]
    dicts = [{k: d[k] for k in names} for d in full]
    packs = pack(dicts, how)
    n = len(dicts)
    for fname in ("generate_component_masses", "generate_mass_parameters", "require", "bbh", "bns"):
        key = f"masses/{fname}/{'+'.join(keys)}/{how}/{suffix}"
        if src and fname in ("bbh", "bns"):
            continue
        f = {"generate_component_masses": lambda p: c.generate_component_masses(p, source=src), "require": lambda p: c.generate_component_masses(p, require_add=True, source=src),
             "generate_mass_parameters": lambda p: c.generate_mass_parameters(p, source=src), "bbh": c.convert_to_lal_binary_black_hole_parameters,
             "bns": c.convert_to_lal_binary_neutron_star_parameters}[fname]
        if not sufficient(keys):
            if fname == "generate_mass_parameters":
                continue
            if fname == "require":
                for p in packs:
                    try:
                        f(p)
                        rec.fail(key, "insufficient masses accepted")
                    except KeyError:
                        rec.case(key)
                continue
            with rec.guard(key):
                for o, p in zip([f(p) for p in packs], packs):
                    o = o[0] if isinstance(o, tuple) else o
                    rec.check(all(np.array_equal(o[k], p[k]) for k in p.keys()) and f"mass_1{suffix}" not in set(o.keys()) - set(p.keys()), key, "invented masses")
                    rec.case(key)
            continue
        with rec.guard(key):
            outs = run(rec, key, f, packs)
            want = ["mass_1", "mass_2"] + (MASS if fname == "generate_mass_parameters" else [])
            for k in MASS:
                nk = k + ("" if "ratio" in k else suffix)
                if k in want and not rec.check(has(outs, nk), key, f"{nk} missing"):
                    continue
                if has(outs, nk):
                    tol = 1e-14 if k in keys else REL
                    rec.close(col(outs, nk, n), np.array([d[nk] for d in full]), f"{key}/{k}", tol, 0)


def functions(rec, item):
    """the elementary conversions, there and back, for scalars and arrays"""
    from bilby.gw import conversion as c
    m1, q, scalar = item
    s = {k: (v if scalar else np.array([v, v])) for k, v in source(m1, q).items()}
    key = f"functions/{item}"
    g = s.__getitem__
    with rec.guard(key):
        tests = [("chirp", c.component_masses_to_chirp_mass(g("mass_1"), g("mass_2")), "chirp_mass"), ("total", c.component_masses_to_total_mass(g("mass_1"), g("mass_2")), "total_mass"),
                 ("eta", c.component_masses_to_symmetric_mass_ratio(g("mass_1"), g("mass_2")), "symmetric_mass_ratio"), ("q", c.component_masses_to_mass_ratio(g("mass_1"), g("mass_2")), "mass_ratio"),
                 ("tq1", c.total_mass_and_mass_ratio_to_component_masses(g("mass_ratio"), g("total_mass"))[0], "mass_1"),
                 ("tq2", c.total_mass_and_mass_ratio_to_component_masses(g("mass_ratio"), g("total_mass"))[1], "mass_2"),
                 ("cq1", c.chirp_mass_and_mass_ratio_to_component_masses(g("chirp_mass"), g("mass_ratio"))[0], "mass_1"),
                 ("cq2", c.chirp_mass_and_mass_ratio_to_component_masses(g("chirp_mass"), g("mass_ratio"))[1], "mass_2"),
                 ("cqt", c.chirp_mass_and_mass_ratio_to_total_mass(g("chirp_mass"), g("mass_ratio")), "total_mass"),
                 ("cte", c.chirp_mass_and_total_mass_to_symmetric_mass_ratio(g("chirp_mass"), g("total_mass")), "symmetric_mass_ratio"),
                 ("m1c", c.mass_1_and_chirp_mass_to_mass_ratio(g("mass_1"), g("chirp_mass")), "mass_ratio"), ("m2c", c.mass_2_and_chirp_mass_to_mass_ratio(g("mass_2"), g("chirp_mass")), "mass_ratio")]
        if q <= 1:
            tests += [("eq", c.symmetric_mass_ratio_to_mass_ratio(g("symmetric_mass_ratio")), "mass_ratio"),
                      ("pc", c.chirp_mass_and_primary_mass_to_mass_ratio(g("chirp_mass"), g("mass_1")), "mass_ratio")]
        for name, got, want in tests:
            rec.check(not np.iscomplexobj(got), key + "/" + name, f"complex {got}")
            rec.close(got, g(want), key + "/" + name, REL, 0)
            rec.case((key, name))


# --------------------------------------------------------------------- frames
DIST = ["luminosity_distance", "redshift", "comoving_distance"]


def frames(rec, item):
    from bilby.gw import conversion as c
    mk, dk, how = item
    full = [source(m1, q, z) for m1, q, z in ((35.5, .8, .1), (1.4, .9, .01), (80., .2, 1.5))]
    dicts = [{k: d[k] for k in mk + dk} for d in full]
    n = len(full)
    key = f"frames/{'+'.join(mk)}/{'+'.join(dk)}/{how}"
    with rec.guard(key):
        outs = run(rec, key, c.convert_to_lal_binary_black_hole_parameters, pack(dicts, how))
        for k in ["mass_1", "mass_2", "luminosity_distance"] + [k for k in full[0] if k not in ("mass_1", "mass_2", "luminosity_distance")]:
            if k in ("mass_1", "mass_2", "luminosity_distance"):
                rec.check(has(outs, k), key, f"{k} missing")
            if has(outs, k):
                rec.close(col(outs, k, n), np.array([d[k] for d in full]), key + "/" + k, REL, 0)
        # the complete description and again
        for gen in (c.generate_all_bbh_parameters, c.generate_all_bns_parameters):
            outs = run(rec, key, gen, pack(dicts, how))
            for k in full[0]:
                if rec.check(has(outs, k), key + f"/{gen.__name__}", f"{k} missing"):
                    rec.close(col(outs, k, n), np.array([d[k] for d in full]), key + f"/{gen.__name__}/{k}", REL, 0)
            again = [gen(o) for o in outs]
            for k in outs[0]:
                if k == "waveform_approximant":
                    continue
                if rec.check(has(again, k), key + "/again", f"{k} dropped"):
                    rec.close(col(again, k, n), col(outs, k, n), key + f"/again/{k}", REL, 1e-12)


# --------------------------------------------------------------------- spins
def spin_kinds(i, a, ct):
    x = {"a": a, "cos_tilt": ct, "tilt": np.arccos(ct), "chi": a * ct, "chi_in_plane": a * np.sqrt(max(0, 1 - ct ** 2))}
    return {f"{k}_{i}" if k != "chi_in_plane" else f"chi_{i}_in_plane": v for k, v in x.items()}


SPIN = [("a", "cos_tilt"), ("a", "tilt"), ("chi", "chi_in_plane"), ("chi", "a"), ("chi",), ("a", "tilt", "cos_tilt"), ("a", "chi", "cos_tilt")]
SPINS = [(0., 1.), (.4, 1.), (.7, -1.), (.3, .5), (.9, 0.), (.6, -.8), (0.05, .99)]


def jn_angle(o, f):
    """angle between the total angular momentum and the line of sight from the L-frame spins (L along z, N at polar angle iota, azimuth pi/2 - phase)"""
    import lal
    m1, m2 = o["mass_1"], o["mass_2"]
    M = m1 + m2
    eta = m1 * m2 / M ** 2
    v = (np.pi * M * lal.MTSUN_SI * f) ** (1 / 3)
    Lm = M * M * eta / v * (1 + v * v * (1.5 + eta / 6))
    J = np.array([m1 ** 2 * o["spin_1" + x] + m2 ** 2 * o["spin_2" + x] for x in "xyz"]) + np.array([0, 0, Lm])
    N = np.array([np.sin(o["iota"]) * np.cos(np.pi / 2 - o["phase"]), np.sin(o["iota"]) * np.sin(np.pi / 2 - o["phase"]), np.cos(o["iota"])])
    return np.arccos(np.clip(J @ N / np.linalg.norm(J), -1, 1))


def spins(rec, item):
    from bilby.gw import conversion as c
    k1, k2, how, orient = item
    al = k1 == ("chi",) or k2 == ("chi",)
    pts = [(s, t) for s in SPINS for t in SPINS if not (k1 == ("chi",) and abs(s[1]) < 1) and not (k2 == ("chi",) and abs(t[1]) < 1)]
    if how in ("float", "np"):
        pts = pts[::3] + [pts[0]]
    dicts, full = [], []
    for j, (s, t) in enumerate(pts):
        f1, f2 = spin_kinds(1, *s), spin_kinds(2, *t)
        pick = {n: v for i, ks, ff in ((1, k1, f1), (2, k2, f2)) for n, v in ff.items() for k in ks if n == (f"{k}_{i}" if k != "chi_in_plane" else f"chi_{i}_in_plane")}
        ang = dict(theta_jn=.3 + .1 * (j % 20), phase=.2 * j % 6.2, psi=.4)
        if orient == "full":
            ang.update(phi_jl=.5 + .3 * (j % 15), phi_12=.2 * (j % 30))
        elif orient == "cos":
            ang["cos_theta_jn"] = np.cos(ang.pop("theta_jn"))
        dicts.append(dict(mass_1=30., mass_2=22., luminosity_distance=400., reference_frequency=20., minimum_frequency=20., **ang, **pick))
        full.append(dict(ang, **f1, **f2))
    n = len(pts)
    key = f"spins/{'+'.join(k1)}/{'+'.join(k2)}/{how}/{orient}"
    with rec.guard(key):
        outs = run(rec, key, c.convert_to_lal_binary_black_hole_parameters, pack(dicts, how))
        for i in "12":
            a = np.array([d["a_" + i] for d in full])
            ct = np.array([d["cos_tilt_" + i] for d in full])
            ga = col(outs, "a_" + i, n)
            rec.close(ga, a, f"{key}/a_{i}", 1e-8, 1e-9)
            if k1 == ("chi",) or k2 == ("chi",) or True:
                gt = col(outs, "tilt_" + i, n)
                rec.check(np.all(np.isfinite(gt)), f"{key}/tilt_{i}", "tilt not finite")
                rec.close(ga * np.cos(gt), a * ct, f"{key}/tilt_{i}", 1e-7, 1e-9)
                m = a > 0
                rec.close(np.cos(gt)[m], ct[m], f"{key}/tilt_{i}", 1e-6, 1e-7)
        if orient == "cos":
            rec.close(np.cos(col(outs, "theta_jn", n)), np.array([d["cos_theta_jn"] for d in dicts]), key + "/theta_jn", 1e-9, 1e-9)
        gen = run(rec, key, c.generate_all_bbh_parameters, pack(dicts, how))
        for i in "12":
            a, ct = np.array([d["a_" + i] for d in full]), np.array([d["cos_tilt_" + i] for d in full])
            sp = [col(gen, f"spin_{i}{x}", n) for x in "xyz"]
            rec.close(np.sqrt(sum(x ** 2 for x in sp)), a, f"{key}/spin_{i}", 1e-6, 1e-8)
            rec.close(sp[2], a * ct, f"{key}/spin_{i}z", 1e-6, 1e-8)
            rec.close(col(gen, f"chi_{i}_in_plane", n), a * np.sqrt(1 - ct ** 2), f"{key}/in_plane", 1e-5, 1e-7)
        a = {i: np.array([d["a_" + i] for d in full]) for i in "12"}
        ct = {i: np.array([d["cos_tilt_" + i] for d in full]) for i in "12"}
        q = 22. / 30
        rec.close(col(gen, "chi_eff", n), (a["1"] * ct["1"] + q * a["2"] * ct["2"]) / (1 + q), key + "/chi_eff", 1e-6, 1e-8)
        rec.close(col(gen, "chi_p", n), np.maximum(a["1"] * np.sqrt(1 - ct["1"] ** 2), q * (4 * q + 3) / (4 + 3 * q) * a["2"] * np.sqrt(1 - ct["2"] ** 2)), key + "/chi_p", 1e-5, 1e-7)
        for j in range(n):
            o = {k: col(gen, k, n)[j] for k in ("mass_1", "mass_2", "iota", "phase", "theta_jn", "spin_1x", "spin_1y", "spin_1z", "spin_2x", "spin_2y", "spin_2z", "phi_12", "phi_1", "phi_2")}
            if j % 7 == 0:
                rec.close(jn_angle(o, 20.), o["theta_jn"], f"{key}/geometry", 1e-5, 1e-6, f"{dicts[j]}")
            in1, in2 = np.hypot(o["spin_1x"], o["spin_1y"]), np.hypot(o["spin_2x"], o["spin_2y"])
            if in1 > 1e-3 and in2 > 1e-3:
                rec.close(np.cos(o["phi_2"] - o["phi_1"] - o["phi_12"]), 1., f"{key}/phi_12", 1e-8, 1e-8)


# --------------------------------------------------------------------- tides
def tides(rec, item):
    from bilby.gw import conversion as c
    keys, how, mk = item
    pts = [(m1, q, l1, l2) for m1, q in ((1.4, .9), (2.0, .5), (1.35, 1.), (1.6, .75)) for l1, l2 in ((400., 700.), (0., 0.), (250., 250.), (10., 3000.))]
    if keys == ("lambda_1",) or keys == ("lambda_tilde",) or keys == ("lambda_1", "lambda_2None"):
        pts = [(m1, q, l1, l1 / q ** 5) for m1, q, l1, _ in pts]
    full = []
    for m1, q, l1, l2 in pts:
        s = source(m1, q)
        e = s["symmetric_mass_ratio"]
        r = np.sqrt(max(0., 1 - 4 * e))
        s.update(lambda_1=l1, lambda_2=l2, lambda_symmetric=(l1 + l2) / 2, lambda_antisymmetric=(l2 - l1) / 2,
                 lambda_tilde=16 / 13 * ((m1 + 12 * m1 * q) * m1 ** 4 * l1 + (m1 * q + 12 * m1) * (m1 * q) ** 4 * l2) / (m1 + m1 * q) ** 5,
                 delta_lambda_tilde=.5 * (r * (1 - 13272 / 1319 * e + 8944 / 1319 * e ** 2) * (l1 + l2)
                                          + (1 - 15910 / 1319 * e + 32850 / 1319 * e ** 2 + 3380 / 1319 * e ** 3) * (l1 - l2)))
        full.append(s)
    n = len(full)
    tk = [k for k in keys if not k.endswith("None")]
    dicts = [{k: d[k] for k in list(mk) + tk} for d in full]
    key = f"tides/{'+'.join(keys)}/{how}/{'+'.join(mk)}"
    with rec.guard(key):
        packs = pack(dicts, how)
        if len(tk) != len(keys):
            for p in packs:
                p["lambda_2"] = None
        if how == "array" and len(tk) != len(keys):
            pass
        conv = c.convert_to_lal_binary_neutron_star_parameters
        outs = run(rec, key, conv, packs) if len(tk) == len(keys) else [conv(p)[0] for p in packs]
        atol = 1e-6
        if keys == ():
            for k in ("lambda_1", "lambda_2"):
                rec.check(np.all(col(outs, k, n) == 0), key, k)
            return
        for k in ("lambda_1", "lambda_2"):
            rec.close(col(outs, k, n), np.array([d[k] for d in full]), f"{key}/{k}", 1e-6, atol)
        gen = run(rec, key, c.generate_all_bns_parameters, packs) if len(tk) == len(keys) else [c.generate_all_bns_parameters(p) for p in packs]
        for k in ("lambda_1", "lambda_2", "lambda_tilde", "delta_lambda_tilde"):
            if rec.check(has(gen, k), key, f"{k} missing"):
                rec.close(col(gen, k, n), np.array([d[k] for d in full]), f"{key}/gen/{k}", 1e-6, 1e-3 if k == "delta_lambda_tilde" else atol)


def tide_functions(rec, item):
    from bilby.gw import conversion as c
    l1, l2, m1, q, scalar = item
    w = (lambda x: x) if scalar else (lambda x: np.array([x, x]))
    L1, L2, M1, M2 = map(w, (l1, l2, m1, m1 * q))
    key = f"tidef/{item}"
    with rec.guard(key):
        lt, dl = c.lambda_1_lambda_2_to_lambda_tilde(L1, L2, M1, M2), c.lambda_1_lambda_2_to_delta_lambda_tilde(L1, L2, M1, M2)
        rec.close(lt, w(16 / 13 * ((m1 + 12 * m1 * q) * m1 ** 4 * l1 + (m1 * q + 12 * m1) * (m1 * q) ** 4 * l2) / (m1 + m1 * q) ** 5), key, 1e-9, 1e-9)
        b = c.lambda_tilde_delta_lambda_tilde_to_lambda_1_lambda_2(lt, dl, M1, M2)
        rec.close(b[0], L1, key, 1e-7, 1e-6)
        rec.close(b[1], L2, key, 1e-7, 1e-6)
        s, a = c.lambda_1_lambda_2_to_lambda_symmetric(L1, L2), c.lambda_1_lambda_2_to_lambda_antisymmetric(L1, L2)
        b = c.lambda_symmetric_lambda_antisymmetric_to_lambda_1_lambda_2(s, a)
        rec.close(b[0], L1, key, 1e-12, 1e-9)
        rec.close(b[1], L2, key, 1e-12, 1e-9)
        rec.case(key)


def binary_love(rec, item):
    from bilby.gw import conversion as c
    from mc.fakerng import FakeRNG, installed
    mk, how, auto = item
    full = [dict(source(m1, q), lambda_symmetric=s, binary_love_uniform=u) for m1, q in ((1.4, .9), (1.8, .6)) for s in (300., 900.) for u in (.1, .5, .9)]
    n = len(full)
    keys = list(mk) + ["lambda_symmetric"] + ([] if auto else ["binary_love_uniform"])
    key = f"love/{'+'.join(mk)}/{how}/{auto}"
    with rec.guard(key):
        ref = [c.binary_love_lambda_symmetric_to_lambda_1_lambda_2_manual_marginalisation(d["binary_love_uniform"], d["lambda_symmetric"], d["mass_ratio"]) for d in full]
        us = iter([d["binary_love_uniform"] for d in full])
        with installed(FakeRNG(lambda: next(us))):
            outs = run(rec, key, c.convert_to_lal_binary_neutron_star_parameters, pack([{k: d[k] for k in keys} for d in full], how))
        if rec.check(has(outs, "lambda_1") and has(outs, "lambda_2"), key, "component deformabilities missing"):
            a, b = col(outs, "lambda_1", n), col(outs, "lambda_2", n)
            rec.close((a + b) / 2, np.array([d["lambda_symmetric"] for d in full]), key, 1e-9, 1e-9)
            rec.close(a, np.array([x[0] for x in ref]), key, 1e-6, 1e-6)
            rec.close(b, np.array([x[1] for x in ref]), key, 1e-6, 1e-6)
        # monotonic in the uniform variate: a bijection onto the scatter
        for i in range(0, n, 3):
            rec.check(ref[i][1] < ref[i + 1][1] < ref[i + 2][1], key, "not monotonic")


EOS = {"spectral": [dict(eos_spectral_pca_gamma_0=a, eos_spectral_pca_gamma_1=b, eos_spectral_pca_gamma_2=c_, eos_spectral_pca_gamma_3=d)
                    for a, b, c_, d in ((0., 0., 0., 0.), (.5, -.3, .2, .1), (3., 3., -2., 1.))],
       "polytrope": [dict(eos_polytrope_gamma_0=g0, eos_polytrope_log10_pressure_1=p1, eos_polytrope_gamma_1=g1, eos_polytrope_log10_pressure_2=p2, eos_polytrope_gamma_2=g2)
                     for g0, p1, g1, p2, g2 in ((2.8, 34.2, 3.0, 35.2, 2.9), (2.7, 34.1, 3.2, 35.0, 3.0), (2.8, 35.2, 3., 34.2, 2.9))],
       "scaled": [dict(eos_polytrope_gamma_0=g0, eos_polytrope_scaled_pressure_ratio=p1, eos_polytrope_gamma_1=g1, eos_polytrope_scaled_pressure_2=p2, eos_polytrope_gamma_2=g2)
                  for g0, p1, g1, p2, g2 in ((2.8, 1.2 / 2.2, 3.0, 2.2, 2.9), (2.7, 1.1 / 2., 3.2, 2.0, 3.0), (2.8, 1.1, 3., 2.0, 2.9))],
       "causal": [dict(eos_v1=a, eos_log10_pressure1_cgs=p1, eos_v2=b, eos_log10_pressure2_cgs=p2, eos_v3=c_)
                  for a, p1, b, p2, c_ in ((1., 34.2, 1., 35.2, 1.), (.8, 34.1, 1.2, 35.0, .9), (1., 35.2, 1., 34.2, 1.))]}


def love_reference(kind, e, ms):
    """deformability straight from lalsimulation"""
    import lalsimulation as ls
    import lal
    try:
        if kind == "spectral":
            from bilby.gw.conversion import spectral_pca_to_spectral
            g = [float(x) for x in spectral_pca_to_spectral(*e.values())]
            if ls.SimNeutronStarEOS4ParamSDGammaCheck(*g) != 0 or ls.SimNeutronStarEOS4ParamSDViableFamilyCheck(*g) != 0:
                return [0.] * len(ms), False
            eos = ls.SimNeutronStarEOS4ParameterSpectralDecomposition(*g)
        else:
            v = list(e.values())
            if kind == "scaled":
                v[1], v[3] = v[1] * v[3] + 33, v[3] + 33
            if v[1] >= v[3]:
                return [0.] * len(ms), False
            a = (v[0], v[1] - 1., v[2], v[3] - 1., v[4])
            if ls.SimNeutronStarEOS3PDViableFamilyCheck(*a, int(kind == "causal")) != 0:
                return [0.] * len(ms), False
            eos = (ls.SimNeutronStarEOS3PieceCausalAnalytic if kind == "causal" else ls.SimNeutronStarEOS3PieceDynamicPolytrope)(*a)
        fam = ls.CreateSimNeutronStarFamily(eos)
        cs = ls.SimNeutronStarEOSSpeedOfSoundGeometerized(ls.SimNeutronStarEOSMaxPseudoEnthalpy(eos), eos)
        lo, hi = ls.SimNeutronStarFamMinimumMass(fam) / lal.MSUN_SI, ls.SimNeutronStarMaximumMass(fam) / lal.MSUN_SI
        if cs > 1.1 or any(not lo <= m <= hi for m in ms):
            return [0.] * len(ms), False
        out = []
        for m in ms:
            r, k = ls.SimNeutronStarRadius(m * lal.MSUN_SI, fam), ls.SimNeutronStarLoveNumberK2(m * lal.MSUN_SI, fam)
            out.append(2 / 3 * k / (m * lal.MRSUN_SI / r) ** 5)
        return out, True
    except RuntimeError:
        return [0.] * len(ms), False


def eos(rec, item):
    from bilby.gw import conversion as c
    kind, how, pinned = item
    full = []
    for e in EOS[kind]:
        for m1, q in ((1.4, .9), (2.4, .5)):
            s = source(m1, q, 0.01)
            full.append(dict({k: s[k] for k in ("mass_1", "mass_2", "luminosity_distance")}, **e))
    key = f"eos/{item}"
    with rec.guard(key):
        if pinned:
            full = [d for d in full if all(d[k] == full[0][k] for k in EOS[kind][0])]
        ref = [love_reference(kind, {k: d[k] for k in EOS[kind][0]}, [d["mass_1"] / 1.01, d["mass_2"] / 1.01]) for d in full]
        if how in ("array", "frame_index"):
            p = pack(full, how)[0]
            if pinned and how == "array":
                p.update({k: float(full[0][k]) for k in EOS[kind][0]})
            packs = [p]
        else:
            packs = pack(full, how)
        outs = run(rec, key, c.convert_to_lal_binary_neutron_star_parameters, packs)
        n = len(full)
        for i in (0, 1):
            rec.close(col(outs, f"lambda_{i + 1}", n), np.array([r[0][i] for r in ref]), key, 2e-4, 1e-6)
        rec.check(list(col(outs, "eos_check", n)) == [float(r[1]) for r in ref], key, "eos_check")
        rec.note("viable eos points", sum(r[1] for r in ref))
        for o, p in zip(outs, packs):
            for k in p:
                rec.check(np.array_equal(np.asarray(o[k]), np.asarray(p[k])), key, f"{k} changed")


def waveform_keys(rec, item):
    """keys already present (reference frequency, ...) are not replaced; priors' fixed values are filled in"""
    from bilby.gw import conversion as c
    from bilby.core.prior import DeltaFunction, PriorDict, Uniform
    how, f, gen, fixed = item
    s = dict(mass_1=30., mass_2=20., a_1=.3, a_2=.2, tilt_1=.4, tilt_2=1., phi_12=.3, phi_jl=.2, theta_jn=.5, phase=.3, luminosity_distance=500., psi=.1)
    if f is not None:
        s["reference_frequency"] = f
    key = f"wfkeys/{item}"
    g = getattr(c, gen)
    with rec.guard(key):
        pr = None
        if fixed:
            pr = PriorDict(dict(mass_1=Uniform(1, 100), a_1=DeltaFunction(.3), ra=DeltaFunction(1.25)))
            s.pop("a_1")
        pk = pack([s, s], how)
        outs = [g(p, priors=pr) for p in pk]
        rec.close(col(outs, "reference_frequency", 2), np.array([f or 50.] * 2), key, 0, 0)
        if fixed:
            rec.close(col(outs, "ra", 2), np.array([1.25] * 2), key, 0, 0)
            rec.close(col(outs, "a_1", 2), np.array([.3] * 2), key, 0, 0)
        o = {k: col(outs, k, 2)[0] for k in ("mass_1", "mass_2", "iota", "phase", "theta_jn", "spin_1x", "spin_1y", "spin_1z", "spin_2x", "spin_2y", "spin_2z")}
        rec.close(jn_angle(o, f or 50.), .5, key, 1e-5, 1e-6)
        want = ["chirp_mass", "redshift", "chi_eff"] + (["lambda_tilde"] if "bns" in gen else [])
        rec.check(all(has(outs, k) for k in want), key, "missing")
        if not fixed:
            sub = [c.generate_specific_parameters(p, ["chirp_mass", "chi_eff", "mass_1"]) for p in pk]
            for k in ("chirp_mass", "chi_eff", "mass_1"):
                rec.close(col(sub, k, 2), col(outs, k, 2), key, 1e-12, 0)
            rec.check(all(sorted(x.keys()) == ["chi_eff", "chirp_mass", "mass_1"] for x in sub), key, "other keys")
            try:
                c.generate_specific_parameters(pk[0], ["nonsense"])
                rec.fail(key, "unknown parameter accepted")
            except KeyError:
                pass
        rec.case(key)


COSMO = ["Planck15", "Planck13", "WMAP9", None, "object", "set-WMAP5", "set-dict"]


def cosmology(rec, item):
    import astropy.cosmology as ac
    from bilby.gw import conversion as c
    from bilby.gw import cosmology as bc
    name, z, how = item
    key = f"cosmo/{item}"
    arg, obj = name, None
    try:
        with rec.guard(key):
            if name is None:
                obj = ac.Planck15
            elif name == "object":
                arg = obj = ac.FlatLambdaCDM(H0=70, Om0=.25)
            elif name.startswith("set"):
                bc.set_cosmology({"set-WMAP5": "WMAP5", "set-dict": dict(H0=68., Om0=.31, Ode0=.6)}[name])
                obj = {"set-WMAP5": ac.WMAP5, "set-dict": ac.LambdaCDM(H0=68., Om0=.31, Ode0=.6)}[name]
                # the module setting is recorded; an explicit cosmology is used as given
                rec.check(bc.COSMOLOGY[0] is obj or bc.COSMOLOGY[0].H0 == obj.H0 and bc.COSMOLOGY[0].Ode0 == obj.Ode0, key, "set")
                arg = bc.COSMOLOGY[0]
            else:
                obj = getattr(ac, name)
            w = {"float": lambda x: float(x), "array": lambda x: np.array([x, x]), "series": lambda x: pd.Series([x, x], index=[4, 2])}[how]
            L, D = obj.luminosity_distance(z).value, obj.comoving_distance(z).value
            for f, x, y in ((c.redshift_to_luminosity_distance, z, L), (c.redshift_to_comoving_distance, z, D), (c.luminosity_distance_to_redshift, L, z), (c.comoving_distance_to_redshift, D, z),
                            (c.comoving_distance_to_luminosity_distance, D, L), (c.luminosity_distance_to_comoving_distance, L, D)):
                got = f(w(x), arg)
                rec.close(np.asarray(got, dtype=float), np.asarray(w(y)), f"{key}/{f.__name__}", 1e-6, 0)
                if name is None:
                    rec.close(np.asarray(f(w(x)), dtype=float), np.asarray(w(y)), f"{key}/{f.__name__}/default", 1e-6, 0)
                rec.case((key, f.__name__))
    finally:
        bc.set_cosmology(None)


def groups(tier, seed):
    deep = tier != "quick"
    subsets = [s for n in range(1, 7) for s in itertools.combinations(MASS, n)]
    subsets += [s[::-1] for s in subsets if len(s) in ((2, 3) if not deep else (2, 3, 4, 5, 6))]
    m = list(itertools.product(subsets, CONTAINERS, (False, True)))
    fn = list(itertools.product((1.4, 10., 35.5, 7.3, 1e-3, 300.), (1., .999, .9, .5, .31, .3, .25, .1, .04, 1.5, 4., 20.), (True, False)))
    mks = [s for s in itertools.combinations(MASS, 2) if sufficient(s)]
    srcs = [tuple(k + ("" if "ratio" in k else "_source") for k in s) for s in mks] + [("mass_1_source", "mass_2"), ("mass_1", "mass_2_source"), ("mass_1", "mass_2"), ("chirp_mass", "mass_ratio"),
                                                                                   ("mass_1_source", "mass_2_source", "mass_1", "mass_2")]
    dks = [s for n in (1, 2, 3) for s in itertools.combinations(DIST, n)]
    fr = list(itertools.product(srcs, dks, CONTAINERS if deep else ["float", "array", "frame_index"]))
    sp = list(itertools.product(SPIN, SPIN, CONTAINERS if deep else ["float", "array", "frame_index"], ["full", "plain", "cos"]))
    tk = [(), ("lambda_1", "lambda_2"), ("lambda_1",), ("lambda_tilde",), ("lambda_tilde", "delta_lambda_tilde"), ("lambda_symmetric", "lambda_antisymmetric"), ("lambda_1", "lambda_2None"),
          ("lambda_1", "lambda_2", "lambda_tilde"), ("lambda_1", "lambda_2", "lambda_tilde", "delta_lambda_tilde"), ("lambda_1", "lambda_2", "lambda_symmetric", "lambda_antisymmetric")]
    ti = [(k, h, mk) for k in tk for h in CONTAINERS for mk in mks if not (len(k) == 2 and k[1] == "lambda_2None" and h.startswith("frame"))]
    tf = list(itertools.product((0., 300., 3000.), (0., 300., 1000.), (1.2, 2.), (1., .9, .5), (True, False)))
    lo = list(itertools.product([("mass_1", "mass_2"), ("chirp_mass", "mass_ratio"), ("mass_ratio",), ("total_mass", "mass_ratio")], CONTAINERS, (True, False)))
    eo = [(k, h, p) for k in EOS for h in ("float", "array", "frame_index") for p in (False, True)]
    wk = list(itertools.product(CONTAINERS, (None, 20., 80.), ("generate_all_bbh_parameters", "generate_all_bns_parameters"), (False, True)))
    co = list(itertools.product(COSMO, (.001, .1, 1., 4.), ("float", "array", "series")))
    return [Group("masses", m, masses, 120), Group("functions", fn, functions, 60), Group("frames", fr, frames, 120), Group("spins", sp, spins, 120), Group("tides", ti, tides, 60),
            Group("tide_functions", tf, tide_functions, 60), Group("binary_love", lo, binary_love, 60), Group("eos", eo, eos, 200), Group("waveform_keys", wk, waveform_keys, 60),
            Group("cosmology", co, cosmology, 60)]
