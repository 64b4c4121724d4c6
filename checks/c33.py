"""C33: values survive the JSON codec and the HDF5 encoding unchanged, and encoding leaves the original alone."""
import copy
import datetime
import itertools
import json
import os
import shutil
import tempfile
import numpy as np
from mc.core import Group

PROPERTY = "C33"
LEVEL = "model_checking"
RULE = ("every value kind x every nesting of containers (dict, list, tuple) up to depth 2, and every pair of kinds side by side in one dict, through JSON text "
        "and through HDF5 files (where a kind may also be refused with an error, never altered); up to two successive round trips; a case = one value and path")
TECHNIQUE = "exhaustive enumeration of value kinds and nestings through the real encoders and decoders with an independent structural equality"


def module_function(x):
    return x + 1


class ModuleClass:
    pass


def atoms():
    """name -> (value, may HDF5 refuse it)"""
    import pandas as pd
    import bilby
    from astropy import cosmology as cosmo, units
    a = {}

    def add(name, value, refuse=False):
        a[name] = (value, refuse)
    for n, v in dict(none=None, true=True, false=False, int0=0, int=-7, big=2 ** 53 + 1, float=.1, neg0=-0., inf=np.inf, ninf=-np.inf, nan=np.nan, tiny=5e-324, huge=1.7976931348623157e308,
                     str="text", empty="", uni="Größe µ 重力", quote='a"b\'c\n\\', complex=1 - 2j, compnan=complex(np.nan, 1.)).items():
        add(n, v)
    for dt in ("bool_", "int8", "uint8", "int16", "int32", "int64", "uint64", "float16", "float32", "float64", "complex64", "complex128", "longdouble"):
        add("np_" + dt, getattr(np, dt)(1), dt == "longdouble")
    add("np_str", np.str_("np"))
    for dt in ("bool", "int8", "int64", "uint8", "float32", "float64", "complex64", "complex128"):
        for shape in ((3,), (1,), (2, 3), (2, 1, 2), ()):
            v = (np.arange(int(np.prod(shape))).reshape(shape) % 3).astype(dt)
            if dt.startswith("complex"):
                v = (v * (1 + 1j)).astype(dt)
            add(f"arr_{dt}_{'x'.join(map(str, shape))}", v)
    add("arr_special", np.array([np.nan, np.inf, -np.inf, -0., 1e-300]))
    add("arr_fortran", np.asfortranarray(np.arange(6.).reshape(2, 3)))
    add("arr_strided", np.arange(12.)[::5])
    add("arr_empty", np.array([]))
    add("arr_str", np.array(["a", "bcd", ""]))
    add("arr_uni", np.array(["ä", "重力波"]))
    add("arr_str2", np.array([["a", "b"], ["c", "dd"]]))
    add("arr_obj", np.array([1, "a", None], dtype=object), True)
    add("arr_objnum", np.array([1., 2.], dtype=object), True)
    add("list_num", [1, 2.5, -3])
    add("list_int", [1, 2, 3])
    add("list_bool", [True, False])
    add("list_str", ["a", "bc", ""])
    add("list_uni", ["ä", "$\\mu$"])
    add("list_none", ["a", None, "c"])
    add("list_nones", [None, None])
    add("list_complex", [1 + 1j, 2.])
    add("list_empty", [])
    add("list_list", [[1, 2], [3, 4]])
    add("list_ragged", [[1], [2, 3]], True)
    add("list_mixed", [1, "a"], True)
    add("list_numnone", [1., None], True)
    add("list_dict", [dict(a=1), dict(b=2)], True)
    add("list_arr", [np.arange(3.), np.ones(3)])
    add("list_npstr", [np.str_("a"), np.str_("b")])
    add("tuple_num", (1, 2.5))
    add("tuple_str", ("a", "b"))
    add("tuple_mixed", (1, "a", None), True)
    add("tuple_empty", ())
    add("dict", dict(a=1, b="x"))
    add("dict_empty", {})
    add("dict_nested", dict(a=dict(b=dict(c=[1, 2], d=None), e={})))
    add("dict_keys", {"with space": 1, "with.dot": 2, "ünicode": 3, "Content": 4, "value": 5})
    add("dict_slash", {"m/s": 1., "a": {"b/c": "x"}}, True)
    add("frame", pd.DataFrame(dict(x=[.1, np.nan, 3.], y=[1, 2, 3])))
    add("frame_kinds", pd.DataFrame(dict(b=[True, False], s=["a", "b"], c=[1 + 1j, 2.], i=np.array([1, 2], dtype="int32"), f=np.array([1, 2], dtype="float32"))))
    add("frame_one", pd.DataFrame(dict(x=[1.5])))
    add("frame_norows", pd.DataFrame(dict(x=np.array([]), y=np.array([]))))
    add("frame_order", pd.DataFrame(dict(z=[1., 2.], a=[3., 4.], m=[5., 6.])))
    add("series", pd.Series([.1, 2., np.nan]), True)
    add("series_str", pd.Series([1., 2.], index=["a", "b"]), True)
    add("series_index", pd.Series([1., 2., 3.], index=[5, 3, 3]), True)
    add("series_named", pd.Series([1, 2], name="n"), True)
    add("timedelta", datetime.timedelta(days=1, seconds=2, microseconds=345678), "seconds")
    add("function", module_function)
    add("class", ModuleClass)
    add("prior_class", bilby.core.prior.Uniform)
    add("q_scalar", 3. * units.Mpc)
    add("q_arr", np.array([1., 2.]) * units.m / units.s)
    add("q_arr2", np.ones((2, 2)) * units.kg)
    add("q_less", units.Quantity(2.5))
    add("q_int", units.Quantity(np.array([1, 2]), "s"))
    for n, u in dict(Mpc=units.Mpc, m=units.m, ms=units.m / units.s, less=units.dimensionless_unscaled, s=units.s).items():
        add("unit_" + n, u, "text")
    for n in ("Planck15", "Planck18", "WMAP9", "Planck13"):
        add("cosmo_" + n, getattr(cosmo, n), True)
    add("cosmo_flat", cosmo.FlatLambdaCDM(H0=70., Om0=.3), True)
    add("cosmo_lcdm", cosmo.LambdaCDM(H0=60., Om0=.3, Ode0=.65, Tcmb0=2.7), True)
    add("cosmo_w0wa", cosmo.w0waCDM(H0=70., Om0=.3, Ode0=.7, w0=-.9, wa=.1), True)
    add("cosmo_named", cosmo.FlatwCDM(H0=68., Om0=.31, w0=-.8, name="mine"), True)
    p = bilby.core.prior
    add("prior_uniform", p.Uniform(0, np.inf, "a", latex_label="$a$", unit="m", boundary="periodic"), True)
    add("prior_delta", p.DeltaFunction(3.), True)
    add("prior_interp", p.Interped(xx=np.linspace(0, 1, 5), yy=np.array([0., 1., 2., 1., 0.]), minimum=.1), True)
    add("prior_cosmo", bilby.gw.prior.UniformSourceFrame(10., 500., name="luminosity_distance", unit="Mpc"), True)
    add("joint_dist", p.MultivariateGaussianDist(["a", "b"], mus=[0., 1.], covs=[[1., .2], [.2, 2.]]), True)
    add("priordict", p.PriorDict(dict(a=p.Uniform(0, 1, "a"), b=p.DeltaFunction(2.), c=p.Sine(name="c"))), "text")
    add("conddict", p.ConditionalPriorDict(dict(a=p.Uniform(0, 1, "a"), b=p.Constraint(0, 2))), "text")
    return a


def equal(a, b, strict):
    """structural equality; strict=False: the HDF5 view (lists and tuples of numbers may become arrays, frames dicts of columns, scalars numpy scalars)"""
    import pandas as pd
    from astropy import units, cosmology as cosmo
    import bilby
    if isinstance(a, units.Quantity):
        return isinstance(b, units.Quantity) and a.unit == b.unit and np.shape(a.value) == np.shape(b.value) and bool(np.all(a.value == b.value))
    if isinstance(a, units.UnitBase):
        return (isinstance(b, (str, units.UnitBase))) and units.Unit(b) == a
    if isinstance(a, cosmo.FLRW):
        return type(a) is type(b) and all(equal(getattr(a, k), getattr(b, k), True) for k in list(a.parameters)) and a.name == b.name
    if isinstance(a, dict):
        return isinstance(b, dict) and list(map(str, sorted(a))) == list(map(str, sorted(b))) and (not strict or list(a) == list(b)) and all(equal(a[k], b[k], strict) for k in a)
    if isinstance(a, pd.DataFrame):
        if strict:
            return isinstance(b, pd.DataFrame) and list(a.columns) == list(b.columns) and len(a) == len(b) and all(equal(a[k].tolist(), b[k].tolist(), True) for k in a)
        cols = {k: np.asarray(b[k]) for k in b}
        return sorted(cols) == sorted(a.columns) and all(equal(a[k].tolist(), cols[k], False) for k in a)
    if isinstance(a, pd.Series):
        return isinstance(b, pd.Series) and a.index.tolist() == b.index.tolist() and a.name == b.name and equal(a.tolist(), b.tolist(), strict)
    if isinstance(a, bilby.core.prior.Prior) or isinstance(a, bilby.core.prior.BaseJointPriorDist):
        if type(a) is not type(b):
            return False
        if isinstance(a, bilby.core.prior.Interped):
            return np.array_equal(a.xx, b.xx) and np.allclose(a.yy, b.yy, rtol=1e-12, atol=0) and (a.minimum, a.maximum) == (b.minimum, b.maximum)
        return a == b
    if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.ndim):
        if strict and isinstance(a, np.ndarray) and (not isinstance(b, np.ndarray) or a.shape != b.shape or (a.size and a.dtype.kind not in "uO" and a.dtype.kind != b.dtype.kind)):
            return False
        if strict and isinstance(a, (list, tuple)) and not isinstance(b, list):
            return False
        if not isinstance(b, (list, tuple, np.ndarray)) or (isinstance(b, np.ndarray) and not b.ndim) or len(a) != len(b):
            return False
        return all(equal(x, y, strict) for x, y in zip(a, b))
    if a is None or isinstance(a, (bool, np.bool_)) or (isinstance(a, np.ndarray) and a.dtype.kind == "b"):
        return (a is None and b is None) or (a is not None and b is not None and np.asarray(b).dtype.kind == "b" and np.shape(b) == () and bool(a) == bool(b))
    if isinstance(a, str):
        return isinstance(b, str) and str(a) == str(b)
    if isinstance(a, datetime.timedelta) and isinstance(b, float):
        return not strict and a.total_seconds() == b
    if isinstance(a, (datetime.timedelta, type, frozenset)) or callable(a):
        return a == b and type(a) is type(b)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype.kind not in "iufcb" or y.dtype.kind not in "iufcb" or y.dtype.kind == "b":
        return False
    if strict and (x.dtype.kind == "c") != (y.dtype.kind == "c") or (x.dtype.kind in "iu" and y.dtype.kind not in "iu" and strict):
        return False
    with np.errstate(all="ignore"):
        if "c" in (x.dtype.kind, y.dtype.kind):
            return equal(float(x.real), float(y.real), False) and equal(float(x.imag), float(y.imag), False)
        return bool((x == y) | ((x != x) & (y != y)))


def wrap(v, path, other=None):
    for p in reversed(path):
        v = {"d": dict(key=v), "l": [v], "t": (v,), "D": dict(before=1., key=v, after="x"), "L": [v, v]}[p]
    return v


def json_trip(v):
    import bilby
    return json.loads(json.dumps(v, cls=bilby.core.utils.BilbyJsonEncoder), object_hook=bilby.core.utils.decode_bilby_json)


def hdf5_trip(v, d):
    import h5py
    from bilby.core.utils import recursively_save_dict_contents_to_group, recursively_load_dict_contents_from_group, recursively_decode_bilby_json
    fn = os.path.join(d, "f.h5")
    with h5py.File(fn, "w") as f:
        recursively_save_dict_contents_to_group(f, "/", v)
    with h5py.File(fn, "r") as f:
        return recursively_decode_bilby_json(recursively_load_dict_contents_from_group(f, "/"))


def snapshot(v):
    """structure with ids of all containers, to see that encoding changed nothing"""
    import bilby
    if isinstance(v, dict):
        return ("dict", id(v), tuple((k, snapshot(v[k])) for k in v))
    if isinstance(v, (list, tuple)):
        return (type(v), id(v), tuple(snapshot(x) for x in v))
    if isinstance(v, np.ndarray):
        return ("arr", id(v), v.dtype.str, v.shape, np.array(v).tolist().__repr__())
    return (type(v), id(v), repr(v))


def run(rec, item):
    names, paths, how = item
    al = atoms()
    d = tempfile.mkdtemp(prefix="c33_")
    try:
        for name, path in itertools.product(names, paths):
            parts = name.split("+")
            v = wrap(al[parts[0]][0], path)
            if len(parts) > 1:
                v = dict(first=v, second=wrap(al[parts[1]][0], path))
            refuse = [al[p][1] for p in parts]
            v = dict(top=v)
            key = f"{how}/{name}/{''.join(path) or '-'}"
            before = snapshot(v)
            with rec.guard(key):
                if how == "json":
                    got = json_trip(v)
                    if rec.check(equal(v, got, True), key, f"{repr(v)[:150]} -> {repr(got)[:150]}"):
                        again = json_trip(got)
                        rec.check(equal(got, again, True), key, "second round trip")
                else:
                    try:
                        got = hdf5_trip(v, d)
                    except Exception as e:
                        got = None
                        nested = any(p in "ltL" for p in path)
                        if not (any(refuse) or nested):
                            rec.fail(key, f"refused: {type(e).__name__}: {str(e)[:150]}")
                        rec.outcome("refused")
                    if got is not None:
                        if "text" in refuse:
                            pass
                        else:
                            rec.check(equal(v, got, False), key, f"{repr(v)[:150]} -> {repr(got)[:150]}")
                        rec.outcome("stored")
                rec.equal(snapshot(v), before, key, "the original was changed")
            rec.case(key)
            rec.trace()
    finally:
        shutil.rmtree(d)


def groups(tier, seed):
    deep = tier == "thorough"
    al = atoms()
    names = list(al)
    paths = [()] + [(x,) for x in "dltDL"] + list(itertools.product("dltDL", repeat=2))
    if deep:
        paths += list(itertools.product("dltDL", repeat=3))
    items = [([n], paths, how) for n in names for how in ("json", "hdf5")]
    pairs = [f"{a}+{b}" for a, b in itertools.product(names, repeat=2)]
    step = 200
    for how in ("json", "hdf5"):
        for i in range(0, len(pairs), step):
            items.append((pairs[i:i + step], [()] if not deep else [(), ("d",)], how))
    return [Group("roundtrip", items, run, 300)]
