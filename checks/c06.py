"""C06: prior specifications survive text / file / JSON round trips (classes x settings x strings x encodings x histories)."""
import itertools
import json
import os
import sys
import numpy as np
from mc.core import Group, sequences
from checks import c01

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("one case = (specification, sequence of encodings): every prior class and setting of the table, every special string in every "
        "text field of five kinds of prior, every numeric value of the lattice, every collection, every file layout, each through all "
        "sequences of encodings (repr, file, JSON file, nested JSON) up to the depth; non-trivial = the specification differs from the defaults")
ASSUMPTIONS = ["interpolation tables and covariance factors may change in the last digits when rebuilt (rtol 1e-9)",
               "condition functions live in an importable module", "keys of collections are identifiers"]
ENC = ["repr", "file", "json", "nested"]


def P():
    import bilby.core.prior as P
    import bilby.gw.prior as G
    return P, G


def cond_module():
    d = os.path.join(os.getcwd(), "c06mod")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "c06_conditions.py")
    if not os.path.exists(fn):
        with open(fn, "w") as f:
            f.write("def shift(reference_params, b):\n"
                    "    return {k: v + b for k, v in reference_params.items() if k in ('minimum', 'maximum', 'mu', 'alpha', 'peak')}\n")
    if d not in sys.path:
        sys.path.insert(0, d)
    import c06_conditions
    return c06_conditions


N = [0]


def encode_decode(pd, enc):
    pr, G = P()
    N[0] += 1
    d = os.path.join(os.getcwd(), "c06")
    label = f"x{N[0]}"
    if enc == "repr":
        new = {}
        shared = {}
        for k, v in pd.items():
            if isinstance(v, pr.JointPrior):
                dk = repr(v.dist)
                if dk not in shared:
                    shared[dk] = type(v.dist).from_repr(dk[dk.index("(") + 1:-1] if N[0] % 2 else dk)
                kw = {key: val for key, val in v.get_instantiation_dict().items() if key != "dist"}
                text = repr(v)
                one = type(v).from_repr(text[text.index("(") + 1:-1])
                one.dist = shared[dk]
                new[k] = one
                assert all(getattr(one, a) == b for a, b in kw.items())
            else:
                new[k] = repr(v)
        return type(pd)(new)
    if enc == "file":
        pd.to_file(d, label)
        return type(pd)(os.path.join(d, label + ".prior"))
    if enc == "json":
        pd.to_json(d, label)
        return type(pd).from_json(os.path.join(d, label + "_prior.json"))
    from bilby.core.utils import BilbyJsonEncoder, decode_bilby_json
    text = json.dumps({"a": [1, {"priors": pd._get_json_dict()}]}, cls=BilbyJsonEncoder)
    return json.loads(text, object_hook=decode_bilby_json)["a"][1]["priors"]


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (float, np.floating)) and isinstance(b, (int, float, np.number)):
        return bool(a == b) or (a != a and b != b) or abs(a - b) <= 1e-12 * abs(a)
    if hasattr(a, "get_instantiation_dict"):
        return prior_diff(a, b) is None
    return type(a) is type(b) and a == b or a == b and not isinstance(a, str)


def prior_diff(a, b):
    if type(a) is not type(b):
        return f"class {type(a).__name__} -> {type(b).__module__}.{type(b).__name__}"
    da, db = a.get_instantiation_dict(), b.get_instantiation_dict()
    if set(da) != set(db):
        return f"arguments {sorted(da)} -> {sorted(db)}"
    for k in da:
        if not eq(da[k], db[k]):
            return f"{k}: {da[k]!r} -> {db[k]!r}"[:600]
    for k in ("name", "latex_label", "unit", "boundary", "minimum", "maximum", "is_fixed", "required_variables"):
        if hasattr(a, k) and not eq(getattr(a, k), getattr(b, k, "<missing>")):
            return f"{k}: {getattr(a, k)!r} -> {getattr(b, k, '<missing>')!r}"[:600]
    return None


U5 = np.array([0.03, 0.2, 0.5, 0.61, 0.97])


def compare(rec, key, a, b, behaviour=True):
    rec.case(key)
    if type(a) is not type(b):
        return rec.fail(key, f"collection class {type(a).__name__} -> {type(b).__name__}")
    if set(a) != set(b):
        return rec.fail(key, f"keys {list(a)} -> {list(b)}")
    for k in a:
        d = prior_diff(a[k], b[k])
        if d is not None:
            return rec.fail(key, f"{k}: {d}")
    pr, G = P()
    joint = {k: v.dist for k, v in b.items() if isinstance(v, pr.JointPrior)}
    for k, v in joint.items():
        for n in v.names:
            if n in b and b[n].dist is not v:
                return rec.fail(key, f"members {k} and {n} no longer share one distribution")
    for attr in ("non_fixed_keys", "fixed_keys", "constraint_keys"):
        if sorted(getattr(a, attr)) != sorted(getattr(b, attr)):
            return rec.fail(key, f"{attr}: {getattr(a, attr)} -> {getattr(b, attr)}")
    if behaviour and a.non_fixed_keys:
        keys = list(a.non_fixed_keys)
        ref = None
        for u in U5:
            theta = [(u + 0.37 * i) % 1 for i in range(len(keys))]
            ra = np.array(a.rescale(keys, theta), dtype=float)
            rb = np.array(b.rescale(keys, theta), dtype=float)
            if behaviour != "prob":
                rec.close(rb, ra, key, rtol=1e-6, atol=1e-9, message="rescale")
            pt = dict(zip(keys, ra))
            pt.update({k: a[k].peak for k in a.fixed_keys if hasattr(a[k], "peak")})
            if not hasattr(a, "n_dim"):
                pb = b.ln_prob(pt, normalized=False)
                pa = a.ln_prob(pt, normalized=False)
                rec.close(pb, pa, key, rtol=1e-6, atol=1e-9, message="ln_prob")


def roundtrips(rec, key, make, depth=1, encs=ENC, behaviour=True):
    for seq in sequences(encs, depth, 1):
        k = f"{key}:{'>'.join(seq)}"
        with rec.guard(k):
            a = make()
            before = [repr(v) for v in a.values()]
            b = a
            for e in seq:
                b = encode_decode(b, e)
            compare(rec, k, a, b, behaviour)
            rec.check([repr(v) for v in a.values()] == before, k, "writing changed the original")


# ------------------------------------------------------------------ groups
def classes(rec, idx):
    pr, G = P()
    spec = SPECS[idx]
    roundtrips(rec, f"class:{spec['label']}", lambda: pr.PriorDict({"k": spec["make"]()}),
               behaviour=not spec["label"].startswith("FermiDirac"))


STR = ["x y", "it's", 'q"u', "q\"'u", "$\\theta_{1, 2}$ = a", "$M_{\\odot}$", "a (b", "c) d", "[a", "b]", "{c", "d}", "é μ", "a#b", "# a", "None", "1",
       "np.pi", "\\", "a\\", "a\\nb", "'", "''", "", "r", "u", "  pad ", "a,b=c", "=", ",", "inf", "Uniform(0, 1)", "bilby.core.prior.Uniform",
       "true", "{}", "a\tb", "__none__"]


def strings(rec, s):
    pr, G = P()
    cm = cond_module()
    for field in ("name", "latex_label", "unit"):
        kw = {field: s}
        # file text is line based and repr() escapes control characters: those are only required to survive JSON
        encs = ["json", "nested"] if "\t" in s else ENC
        roundtrips(rec, f"str:Uniform:{field}={s!r}", lambda: pr.PriorDict({"x": pr.Uniform(0, 1, **kw)}), 2 if TIER == "thorough" else 1, encs)
        roundtrips(rec, f"str:Delta:{field}={s!r}", lambda: pr.PriorDict({"x": pr.DeltaFunction(0.3, **kw)}), 1, encs)
        roundtrips(rec, f"str:Constraint:{field}={s!r}", lambda: pr.PriorDict({"x": pr.Constraint(0, 1, **kw), "y": pr.Sine()}), 1, encs)
        roundtrips(rec, f"str:Conditional:{field}={s!r}", lambda: pr.ConditionalPriorDict(
            {"x": pr.ConditionalUniform(condition_func=cm.shift, minimum=0, maximum=1, **kw), "b": pr.Uniform(0, 1)}), 1, encs)
        roundtrips(rec, f"str:SlabSpike:{field}={s!r}", lambda: pr.PriorDict(
            {"x": pr.SlabSpikePrior(pr.Uniform(0, 1, **kw), 0.5, 0.1)}), 1, encs)
        if field != "name":
            roundtrips(rec, f"str:MVG:{field}={s!r}", lambda: mvg(kw), 1, encs)


def mvg(kw, **dk):
    pr, G = P()
    d = pr.MultivariateGaussianDist(["x1", "x2"], **dict(dict(mus=[[0, 1.]], covs=[[[1, .1], [.1, 2]]],
                                                             bounds=[(-1, np.inf), (0, 1)]), **dk))
    return pr.PriorDict({"x1": pr.MultivariateGaussian(d, name="x1", **kw), "y": pr.Uniform(0, 1),
                         "x2": pr.MultivariateGaussian(d, name="x2", **kw)})


NUM = [0, 1, -1, 0.1, 1 / 3, 1e-300, 1e300, -1e-5, 123456789.123456789, 2 ** 53 + 1, np.pi, np.float64(0.1), np.int64(3), np.float64(1e22),
       5e-324, 1e-7, 100000000000000000000.0]


def numbers(rec, i):
    pr, G = P()
    v = NUM[i]
    roundtrips(rec, f"num:Delta:{v!r}", lambda: pr.PriorDict({"x": pr.DeltaFunction(v)}), 2)
    for w in NUM + [np.inf, -np.inf]:
        if w > v:
            roundtrips(rec, f"num:Uniform:{v!r},{w!r}", lambda: pr.PriorDict({"x": pr.Uniform(v, w)}), behaviour=False)
            roundtrips(rec, f"num:Constraint:{v!r},{w!r}", lambda: pr.PriorDict({"x": pr.Constraint(v, w)}), behaviour=False)
        if w > 0 and np.isfinite(w):
            roundtrips(rec, f"num:Gaussian:{v!r},{w!r}", lambda: pr.PriorDict({"x": pr.Gaussian(v, w)}), behaviour=False)
    for b in ("periodic", "reflective", None) if abs(v) < 1e10 else ():
        roundtrips(rec, f"num:boundary:{v!r}:{b}", lambda: pr.PriorDict({"x": pr.Uniform(v - 1, v + 2, boundary=b)}), 2, behaviour=False)


def conditionals():
    pr, G = P()
    cm = cond_module()
    out = {}
    base = dict(
        ConditionalBasePrior=dict(), ConditionalUniform=dict(minimum=0, maximum=1), ConditionalDeltaFunction=dict(peak=1.0),
        ConditionalPowerLaw=dict(alpha=1, minimum=2, maximum=3), ConditionalGaussian=dict(mu=1, sigma=0.5),
        ConditionalLogUniform=dict(minimum=1, maximum=5), ConditionalSymmetricLogUniform=dict(minimum=1, maximum=5),
        ConditionalCosine=dict(minimum=-1, maximum=0.2), ConditionalSine=dict(minimum=0.2, maximum=1.1),
        ConditionalTruncatedGaussian=dict(mu=0.2, sigma=1, minimum=0, maximum=1), ConditionalHalfGaussian=dict(sigma=2.0),
        ConditionalLogNormal=dict(mu=0.2, sigma=1), ConditionalExponential=dict(mu=2.0), ConditionalStudentT=dict(df=3.0, mu=1, scale=2),
        ConditionalBeta=dict(alpha=1, beta=2.5, minimum=0, maximum=2), ConditionalLogistic=dict(mu=1, scale=3.), ConditionalCauchy=dict(alpha=1, beta=2),
        ConditionalGamma=dict(k=2, theta=3.), ConditionalChiSquared=dict(nu=3), ConditionalFermiDirac=dict(sigma=1, mu=10))
    for c, kw in base.items():
        out[c] = (lambda c=c, kw=kw: pr.ConditionalPriorDict({
            "x": getattr(pr, c)(condition_func=cm.shift, name="x", latex_label="$x_1$", **kw), "b": pr.Uniform(0, 0.1)}),
            c not in ("ConditionalBasePrior", "ConditionalFermiDirac", "ConditionalDeltaFunction", "ConditionalHalfGaussian"))
    xs = np.linspace(0, 1, 1500)
    out["ConditionalInterped"] = (lambda: pr.ConditionalPriorDict({
        "x": pr.ConditionalInterped(condition_func=nothing(cm), xx=xs, yy=xs ** 2, minimum=0, maximum=1), "b": pr.Uniform(0, 0.1)}), False)
    for c in ("ConditionalUniformComovingVolume", "ConditionalUniformSourceFrame"):
        for n in ("redshift", "luminosity_distance", "comoving_distance"):
            for cosmo in (None, "Planck13"):
                out[f"{c}:{n}:{cosmo}"] = (lambda c=c, n=n, cosmo=cosmo: pr.ConditionalPriorDict({
                    "x": getattr(G, c)(condition_func=cm.shift, minimum=0.1, maximum=1.3, name=n, cosmology=cosmo), "b": pr.Uniform(0, 0.1)}), False)
    out["ConditionalChiUniformSpinMagnitude"] = (lambda: pr.ConditionalPriorDict({
        "a_1": G.ConditionalChiUniformSpinMagnitude(minimum=0, maximum=0.9, name="a_1"), "chi_1": pr.Uniform(-0.5, 0.5)}), True)
    out["ConditionalChiInPlane"] = (lambda: pr.ConditionalPriorDict({
        "chi_1_in_plane": G.ConditionalChiInPlane(minimum=0, maximum=0.9, name="chi_1_in_plane"), "chi_1": pr.Uniform(-0.5, 0.4)}), True)
    return out


def nothing(cm):
    return cm.shift


def cond(rec, label):
    make, beh = conditionals()[label]
    # a conditional prior class must also keep its own identity
    roundtrips(rec, f"cond:{label}", make, 2, behaviour=beh)
    with rec.guard(f"cond:{label}:subclass"):
        pd = make()
        x = pd[list(pd)[0]]
        c = type(x)

        class Mine(c):
            pass
        if label in ("ConditionalUniform", "ConditionalGaussian"):
            m = Mine(condition_func=cond_module().shift, **{k: v for k, v in x.reference_params.items()})
            rec.case(f"cond:{label}:subclass")
            rec.check(type(m).__name__ == "Mine" and repr(m).split("(")[0].endswith("Mine"), f"cond:{label}:subclass", repr(m)[:200])


def collections():
    pr, G = P()
    cm = cond_module()
    members = dict(
        u=lambda: pr.Uniform(0, 1, name="u", latex_label="$u, v$"), d=lambda: pr.DeltaFunction(0.3, name="dd"),
        con=lambda: pr.Constraint(0, 1, name="con"), q=lambda: G.UniformInComponentsMassRatio(0.1, 1, name="mass_ratio", boundary="reflective"),
        b=lambda: pr.Uniform(0, .5), z=lambda: pr.ConditionalUniform(condition_func=cm.shift, minimum=0, maximum=1),
        dl=lambda: G.UniformSourceFrame(100, 500, name="luminosity_distance", unit="Mpc"),
        a=lambda: G.AlignedSpin(pr.Uniform(0, 0.9), pr.Uniform(-1, 1), name="chi_1"))
    out = {}
    for r in (1, 2, 3):
        for keys in itertools.permutations(members, r):
            if "z" in keys and "b" not in keys:
                continue
            if r == 3 and not ("z" in keys or "con" in keys):
                continue
            cls = "ConditionalPriorDict" if "z" in keys else "PriorDict"
            beh = "con" not in keys
            out["+".join(keys)] = (lambda keys=keys, cls=cls: getattr(pr, cls)({k: members[k]() for k in keys}), beh)
    for nm, kw in dict(
            one=dict(), two=dict(nmodes=2, mus=[[0, 1.], [2, 3]], covs=None, sigmas=[[1, 2], [3, 4.]],
                             corrcoefs=[np.eye(2).tolist(), [[1, .5], [.5, 1]]], weights=[1, 3]),
            unb=dict(bounds=None), neg=dict(mus=[[-1e-3, 1e5]], bounds={"x1": (-3, 3), "x2": (-np.inf, np.inf)}),
            sig=dict(covs=None, sigmas=[[1e-8, 2]], corrcoefs=[np.eye(2).tolist()])).items():
        out["mvg:" + nm] = (lambda kw=kw: mvg({}, **kw), "prob" if nm == "two" else True)

    def two():
        a, b = mvg({}), mvg({})
        da = pr.MultivariateGaussianDist(["y1", "y_2"], mus=[[5, 1.]], covs=[[[1, .1], [.1, 2]]])
        db = pr.MultivariateNormalDist(["z"], mus=[[5.]], covs=[[[1]]])
        a.update({"y_2": pr.MultivariateGaussian(da, "y_2"), "y1": pr.MultivariateNormal(da, "y1"), "z": pr.MultivariateNormal(db, "z")})
        return a
    out["mvg:several"] = (two, True)
    return out


def collection(rec, label):
    make, beh = collections()[label]
    roundtrips(rec, f"coll:{label}", make, 2 if TIER == "thorough" or label.startswith("mvg") or "+" not in label else 1, behaviour=beh)


def dirichlet(rec, n):
    pr, G = P()
    for label in ("dirichlet_", "x y"):
        roundtrips(rec, f"dirichlet:{n}:{label}", lambda: pr.DirichletPriorDict(n, label), 2, ["json", "nested"])


def shipped(rec, name):
    import bilby
    pr, G = P()
    d = os.path.join(os.path.dirname(bilby.__file__), "gw", "prior_files")
    bns = "bns" in name or "GW170817" in name
    cls = G.BNSPriorDict if bns else G.BBHPriorDict
    roundtrips(rec, f"shipped:{name}", lambda: cls(os.path.join(d, name)), 2, behaviour=False)
    with rec.guard(f"shipped:{name}:constraints"):
        a = cls(os.path.join(d, name))
        for e in ENC:
            b = encode_decode(a, e)
            rng = np.random.default_rng(1)
            for _ in range(6):
                keys = list(a.non_fixed_keys)
                x = dict(zip(keys, a.rescale(keys, rng.uniform(size=len(keys)))))
                x.update({k: a[k].peak for k in a.fixed_keys})
                rec.close(b.ln_prob(x, normalized=False), a.ln_prob(x, normalized=False), f"shipped:{name}:constraints:{e}", rtol=1e-6)
                rec.case(("constraints", name, e, _))


# file layouts: lines with the same meaning
LAYOUT = {
    "spaces": (["a=Uniform(0,1)", "a = Uniform( 0 , 1 )", "  a   =   Uniform(minimum = 0,maximum=1)", "a = Uniform(maximum=1, minimum=0)",
                "a = Uniform(minimum=0., maximum=1.000)", "a = Uniform(minimum=-0, maximum=1e0)", "a = Uniform(0, maximum=1)",
                "a = bilby.core.prior.Uniform(0, 1)", "a = bilby.core.prior.analytical.Uniform(0, 1)", "a\t=\tUniform(0, 1)",
                "a = Uniform(minimum=0, maximum=1, name=None)", "a = Uniform(minimum=0, maximum=np.sin(np.pi / 2))",
                "a = Uniform(minimum=(1 - 1) * 2, maximum=2 ** 0)" if False else "a = Uniform(minimum=1 - 1, maximum=2 ** 0)"],
               lambda pr, G: pr.Uniform(0, 1)),
    "named": (["a = Uniform(0, 2 * np.pi, name='a b', latex_label='$\\alpha$', boundary='periodic')",
               "a = Uniform(0, 2 * np.pi, 'a b', '$\\alpha$', boundary='periodic')",
               "a = Uniform(0, 2 * pi, name=\"a b\", latex_label=r'$\\alpha$', boundary=\"periodic\")",
               "a = Uniform(name='a b', latex_label='$\\\\alpha$', boundary='periodic', minimum=0, maximum=np.pi * 2)"],
              lambda pr, G: pr.Uniform(0, 2 * np.pi, "a b", "$\\alpha$", boundary="periodic")),
    "number": (["a = 3", "a = 3.0", "a=3e0", "a = +3", "a = DeltaFunction(3)", "a = DeltaFunction(peak=3.)", "a = 30e-1"], lambda pr, G: pr.DeltaFunction(3)),
    "constraint": (["a = Constraint(minimum=0, maximum=inf)", "a = Constraint(0, np.inf)", "a = Constraint(0, float('inf'))"
                    if False else "a = Constraint(maximum=np.inf, minimum=0.0)"], lambda pr, G: pr.Constraint(0, np.inf)),
    "composite": (["a = SlabSpikePrior(slab=Uniform(minimum=0, maximum=1), spike_location=0.5, spike_height=0.2)",
                   "a = SlabSpikePrior(slab=Uniform(0,1),spike_location=0.5,spike_height=0.2)",
                   "a = SlabSpikePrior(Uniform(0, 1), 0.5, 0.2)",
                   "a = SlabSpikePrior(spike_height=0.2, slab=bilby.core.prior.Uniform(maximum=1, minimum=0), spike_location=1 / 2)"],
                  lambda pr, G: pr.SlabSpikePrior(pr.Uniform(0, 1), 0.5, 0.2)),
    "gw": (["a = bilby.gw.prior.AlignedSpin(a_prior=Uniform(minimum=0, maximum=0.8), z_prior=Uniform(minimum=-1, maximum=1), name='chi_1')",
            "a = bilby.gw.prior.AlignedSpin(name='chi_1', z_prior=Uniform(-1, 1), a_prior=Uniform(0, 0.8))"],
           lambda pr, G: G.AlignedSpin(pr.Uniform(0, 0.8), pr.Uniform(-1, 1), name="chi_1")),
    "list": (["a = Categorical(ncategories=3)", "a = Categorical(3)"], lambda pr, G: pr.Categorical(3)),
    "interped": (["a = Interped(xx=[0, 1, 2], yy=[1, 2, 1])", "a = Interped([0,1,2],[1,2,1])", "a = Interped(yy=[1,2,1.0], xx=np.array([0, 1, 2]))",
                  "a = Interped(xx=np.linspace(0, 2, 3), yy=[1, 2, 1])"],
                 lambda pr, G: pr.Interped([0, 1, 2], [1, 2, 1])),
}
NOISE = [("", ""), ("# comment = Uniform(0, 1)\n", ""), ("\n\n", "\n"), ("   \n", "\t\n"), ("#\n\n#a = 3\n", "# end"), ("  # indented = 2\n", ""),
         ("b = Sine()\n", ""), ("", "b = Sine()\n"), ("b = 4\n\n", "c = Uniform(0, 3)\n"), ("\r\n", "\r\n")]


def layout(rec, name):
    pr, G = P()
    lines, make = LAYOUT[name]
    ref = make(pr, G)
    for i, line in enumerate(lines):
        for j, (pre, post) in enumerate(NOISE):
            for eol in ("\n", "\r\n", ""):
                if eol == "" and post:
                    continue
                key = f"layout:{name}:{line}:{j}:{eol!r}"
                rec.case(key)
                fn = f"l_{name}.prior"
                with open(fn, "w", encoding="utf-8", newline="") as f:
                    f.write(pre + line + eol + post)
                with rec.guard(key):
                    pd = pr.PriorDict(fn)
                    extra = {k for k in "bc" if f"{k} =" in pre + post and not f"#{k}" in pre}
                    rec.check(set(pd) == {"a"} | extra, key, f"keys {list(pd)}")
                    d = prior_diff(ref, pd["a"])
                    rec.check(d is None, key, d)
        with rec.guard(f"layout:{name}:dict:{line}"):
            d = prior_diff(ref, pr.PriorDict({"a": line.split("=", 1)[1].strip()})["a"])
            rec.case((name, i, "dict"))
            rec.check(d is None, f"layout:{name}:dict:{line}", d)


def orders(rec, _):
    """all line orders of a prior file describe the same collection"""
    pr, G = P()
    cm = cond_module()
    lines = ["a = Uniform(0, 1)", "b = Sine()", "x = ConditionalUniform(condition_func='c06_conditions.shift', minimum=0, maximum=1)",
             "c = Constraint(0, 1)", "e = 3"]
    ref = None
    for perm in itertools.permutations(lines):
        with open("o.prior", "w") as f:
            f.write("\n".join(perm) + "\n")
        key = "order:" + ">".join(p[0] for p in perm)
        rec.case(key)
        with rec.guard(key):
            pd = pr.ConditionalPriorDict("o.prior")
            ref = ref or pd
            rec.check(list(pd) == [p[0] for p in perm], key, "key order")
            for k in ref:
                d = prior_diff(ref[k], pd[k])
                rec.check(d is None, key, f"{k}: {d}")
            rec.check(set(pd.sorted_keys) == set(ref.sorted_keys), key, "sorted keys")


def malformed(rec, line):
    pr, G = P()
    with open("m.prior", "w") as f:
        f.write(line + "\n")
    rec.case("bad:" + line)
    try:
        pd = pr.PriorDict("m.prior")
    except Exception:
        return
    rec.fail("bad:" + line, f"accepted as {pd}"[:300])


SPECS = []
TIER = "quick"


def groups(tier, seed):
    global SPECS, TIER
    TIER = tier
    SPECS = c01.table(tier)
    import bilby
    d = os.path.join(os.path.dirname(bilby.__file__), "gw", "prior_files")
    files = sorted(f for f in os.listdir(d) if f.endswith(".prior"))
    return [
        Group("classes", range(len(SPECS)), classes, 200),
        Group("strings", STR, strings, 300),
        Group("numbers", range(len(NUM)), numbers, 300),
        Group("conditional", list(conditionals()), cond, 300),
        Group("collections", list(collections()), collection, 300),
        Group("dirichlet", [2, 3, 4], dirichlet, 100),
        Group("shipped", files, shipped, 300),
        Group("layout", list(LAYOUT), layout, 200),
        Group("orders", [0], orders, 200),
        Group("malformed", ["a = Uniform(0, 1, foo=3)", "a = NotAPrior(0, 1)", "a = Uniform(0, nothere)", "a = no.such.module.Prior(1)",
                            "a = MultivariateGaussian(name='a')", "a = MultivariateGaussian(dist=undefined, name='a')"], malformed, 50),
    ]
