"""C34: a detector network only ever holds compatible detectors and acts on each of them as on a single detector."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc.core import Group

PROPERTY = "C34"
LEVEL = "model_checking"
RULE = ("all list operations with all operands in all networks up to the length bound (every network that can be reached is visited, so every sequence of "
        "operations is covered): accepted exactly if the resulting list would be compatible detectors, otherwise an error and nothing changed; "
        "network-level data setting, injection, saving and loading for all small networks against the same operation on twin detectors one by one; "
        "a case = one (network, operation)")
TECHNIQUE = "explicit-state exploration of the real list operations from every reachable network, with a list model as oracle; exhaustive network actions against per-detector twins"

G0 = 1126259462.0
SPECS = {  # name: (fs, T, t0) or None without data
    "A": (64, 4, G0), "B": (64., 4., G0), "F": (64, 4, G0 + 2e-6), "S": (64, 4, G0 + 1.0), "R": (128, 4, G0), "D": (64, 8, G0), "s": (64, 4, G0 + 1e-3),
    "N": None, "M": None}


def det(name, spec=None, lo=5., k=0):
    import bilby
    f = np.linspace(0, 64, 65)
    ifo = bilby.gw.detector.Interferometer(
        name=name, power_spectral_density=bilby.gw.detector.PowerSpectralDensity(frequency_array=f, psd_array=1e-2 * (1 + f + k)), minimum_frequency=lo,
        maximum_frequency=60., length=4., latitude=40. + 10 * k, longitude=-100. + 30 * k, elevation=100., xarm_azimuth=20. * k, yarm_azimuth=90. + 20 * k)
    if spec is not None:
        ifo.set_strain_data_from_zero_noise(sampling_frequency=spec[0], duration=spec[1], start_time=spec[2])
    return ifo


class World:
    def __init__(self):
        self.ifo = {k: det(k, v, k=i) for i, (k, v) in enumerate(SPECS.items())}
        self.name = {id(v): k for k, v in self.ifo.items()}

    def names(self, lst):
        return tuple(self.name.get(id(x), "?") for x in lst)


def compatible(names):
    if any(n not in SPECS for n in names):
        return False
    sp = [SPECS[n] for n in names]
    if any(s is None for s in sp):
        return all(s is None for s in sp)
    return all(abs(a - b) <= 1e-5 for s in sp for a, b in zip(s, sp[0]))


def operations(n):
    """(name, model on a list of names, action on the network)"""
    one = list(SPECS) + ["!str", "!num"]
    pairs = [("A", "B"), ("A", "S"), ("N", "M"), ("S", "D"), ("A", "!num"), ()]
    for x in one:
        yield "append", (x,), lambda m, x=x: m + [x]
        for i in sorted({0, n // 2, n, -1, 7}):
            yield "insert", (i, x), lambda m, i=i, x=x: m[:i] + [x] + m[i:]
        for i in sorted({0, n - 1, -1}):
            if n and i < n:
                yield "setitem", (i, x), lambda m, i=i, x=x: m[:i % n] + [x] + m[i % n + 1:]
    for p in pairs:
        for how in ("extend", "extend_iter", "iadd", "append_net", "extend_net", "insert_net"):
            if how.endswith("net") and not compatible(p):
                continue
            yield how, p, (lambda m, p=p: list(p) + m) if how == "insert_net" else (lambda m, p=p: m + list(p))
        yield "setslice", (0, 1) + p, lambda m, p=p: list(p) + m[1:]
        yield "setslice", (1, 3) + p, lambda m, p=p: m[:1] + list(p) + m[3:]
    yield "reverse", (), lambda m: m[::-1]
    yield "clear", (), lambda m: []
    yield "copy", (), lambda m: list(m)
    yield "self_extend", (), lambda m: m + m
    for i in range(-1, n):
        if n:
            yield "pop", (i,), lambda m, i=i: m[:i % n] + m[i % n + 1:]
            yield "del", (i,), lambda m, i=i: m[:i % n] + m[i % n + 1:]


def act(w, net, op, args):
    from bilby.gw.detector import InterferometerList

    def o(x):
        return {"!str": "H1x", "!num": 3}.get(x) or w.ifo[x]
    if op == "append":
        net.append(o(args[0]))
    elif op == "insert":
        net.insert(args[0], o(args[1]))
    elif op == "setitem":
        net[args[0]] = o(args[1])
    elif op == "extend":
        net.extend([o(x) for x in args])
    elif op == "extend_iter":
        net.extend(o(x) for x in args)
    elif op == "iadd":
        net += [o(x) for x in args]
    elif op == "append_net":
        net.append(InterferometerList([o(x) for x in args]))
    elif op == "extend_net":
        net.extend(InterferometerList([o(x) for x in args]))
    elif op == "insert_net":
        net.insert(0, InterferometerList([o(x) for x in args]))
    elif op == "setslice":
        net[args[0]:args[1]] = [o(x) for x in args[2:]]
    elif op == "reverse":
        net.reverse()
    elif op == "clear":
        net.clear()
    elif op == "copy":
        import copy
        net = copy.copy(net)
    elif op == "self_extend":
        net.extend(net)
    elif op == "pop":
        net.pop(args[0])
    elif op == "del":
        del net[args[0]]
    return net


def lists(rec, item):
    from bilby.gw.detector import InterferometerList
    w = World()
    start = list(item)
    rec.state(tuple(item))
    for op, args, model in operations(len(start)):
        key = f"list:{''.join(item)}:{op}:{args}"
        rec.case(key)
        rec.transition()
        want = model(start)
        ok = compatible(want)
        net = InterferometerList([w.ifo[n] for n in start])
        try:
            got = act(w, net, op, args)
        except Exception as e:
            rec.check(not ok, key, f"refused: {e!r}")
            rec.check(w.names(net) == tuple(start), key, f"refused operation left {w.names(net)}")
            continue
        rec.check(isinstance(got, InterferometerList), key, f"became a {type(got)}")
        if not ok:
            rec.fail(key, f"accepted: now {w.names(got)}")
            continue
        rec.check(w.names(got) == tuple(want), key, f"{w.names(got)} instead of {want}")
        if want:
            s = SPECS[want[0]]
            rec.check((got.sampling_frequency, got.duration, got.start_time) == (s or (None, None, None))
                      or (s is None and got.sampling_frequency is None and got.duration is None), key, "network settings are not those of its members")
            rec.check(got.number_of_interferometers == len(want) and got.meta_data == {x.name: x.meta_data for x in got}, key, "network description")


def construction(rec, item):
    """building a network from any sequence of detectors, names and networks"""
    from bilby.gw.detector import InterferometerList
    w = World()
    key = f"init:{item}"
    rec.case(key)
    objs, want = [], []
    for x in item:
        if x == "net":
            objs.append(InterferometerList([w.ifo["A"], w.ifo["B"]]))
            want += ["A", "B"]
        elif x == "!num":
            objs.append(3)
            want.append(x)
        else:
            objs.append(w.ifo[x])
            want.append(x)
    try:
        net = InterferometerList(objs)
    except Exception as e:
        return rec.check(not compatible(want), key, f"refused: {e!r}")
    rec.check(compatible(want), key, f"accepted {want}")
    rec.check(w.names(net) == tuple(want), key, f"{w.names(net)}")


def named(rec, item):
    import bilby
    names, = item
    key = f"named:{names}"
    rec.case(key)
    with rec.guard(key):
        net = bilby.gw.detector.InterferometerList(list(names))
        got = [x.name for x in net]
        want = [n for k in names for n in (["ET1", "ET2", "ET3"] if k == "ET" else [k])]
        rec.check(got == want, key, f"{got}")
        rec.check(len({x.frequency_array.shape if x.duration else None for x in net}) == 1, key, "axes differ")


POL = dict(ra=1.2, dec=-0.4, psi=0.7, geocent_time=G0 + 2.1, mass_1=30., mass_2=25.)


def source(frequency_array, mass_1, mass_2, ra, dec, psi, geocent_time):
    return dict(plus=np.exp(-frequency_array / 9.) * (mass_1 + 0j), cross=1j * mass_2 * np.cos(frequency_array))


def same_ifo(rec, a, b, key):
    rec.equal(a.frequency_domain_strain, b.frequency_domain_strain, f"{key}:fd")
    rec.equal(a.time_domain_strain, b.time_domain_strain, f"{key}:td")
    rec.equal(a.power_spectral_density_array, b.power_spectral_density_array, f"{key}:psd")
    for s in ("duration", "sampling_frequency", "start_time"):
        rec.equal(getattr(a, s), getattr(b, s), f"{key}:{s}")
    for k in ("optimal_SNR", "matched_filter_SNR", "parameters"):
        rec.check((k in a.meta_data) == (k in b.meta_data) and (k not in a.meta_data or a.meta_data[k] == b.meta_data[k]), f"{key}:meta", f"{a.meta_data.get(k)} {b.meta_data.get(k)}")


def actions(rec, item):
    """a sequence of network actions equals the sequence of single-detector actions in network order"""
    import bilby
    from bilby.gw.waveform_generator import WaveformGenerator
    members, seq = item
    key = f"act:{''.join(map(str, members))}:{seq}"
    rec.case(key)
    rec.trace(1, key)
    net = bilby.gw.detector.InterferometerList([det(f"X{k}", lo=5. + 8 * k, k=k) for k in members])
    twins = [det(f"X{k}", lo=5. + 8 * k, k=k) for k in members]
    scratch = tempfile.mkdtemp(prefix="c34_")
    spec = None
    try:
        with rec.guard(key):
            for op in seq:
                rec.transition()
                if op in ("zero", "noise", "noise2"):
                    spec = dict(sampling_frequency=128, duration=4 if op != "noise2" else 2, start_time=G0)
                    if op == "zero":
                        net.set_strain_data_from_zero_noise(**spec)
                        for t in twins:
                            t.set_strain_data_from_zero_noise(**spec)
                    else:
                        bilby.core.utils.random.seed(5)
                        net.set_strain_data_from_power_spectral_densities(**spec)
                        bilby.core.utils.random.seed(5)
                        for t in twins:
                            t.set_strain_data_from_power_spectral_density(**spec)
                        fd = [x.frequency_domain_strain for x in net]
                        rec.check(all(not np.array_equal(a, b) for a, b in itertools.combinations(fd, 2)), key, "detectors share one noise realisation")
                elif spec is None:
                    return
                elif op in ("pols", "gen", "long", "longok", "nosignal"):
                    f = net.frequency_array
                    pols = source(f, **POL)
                    par = dict(POL)
                    if op.startswith("long"):
                        par.update(mass_1=9., mass_2=9.)  # too long for the detectors with a low minimum frequency only
                    keep = dict(par)
                    wg = WaveformGenerator(duration=spec["duration"], sampling_frequency=spec["sampling_frequency"], start_time=G0,
                                           frequency_domain_source_model=source, parameter_conversion=lambda p: (dict(p), []))
                    kw = dict(raise_error=op == "long")
                    kw.update(dict(waveform_generator=wg) if op == "gen" else {} if op == "nosignal" else dict(injection_polarizations=pols))
                    # the same request to each twin first: the network request fails if any of them fails, and then changes nothing
                    import copy
                    new, out, bad = [], [], False
                    for t in twins:
                        t = copy.deepcopy(t)
                        try:
                            out.append(t.inject_signal(parameters=par, **kw))
                        except ValueError:
                            bad = True
                        new.append(t)
                    try:
                        got = net.inject_signal(parameters=par, **kw)
                        rec.check(not bad, key, f"{op} accepted")
                        rec.check(len(got) == len(out) and all(set(g) == {"plus", "cross"} and all(np.array_equal(g[k], o[k]) for k in g) for g, o in zip(got, out)), key, "polarisations")
                        twins = new
                    except ValueError as e:
                        rec.check(bad, key, f"{op} refused {e}")
                    rec.check(par == keep, key, "parameters changed")
                elif op == "save":
                    for d, it in (("n", [net]), ("t", twins)):
                        os.makedirs(os.path.join(scratch, d), exist_ok=True)
                        for x in it:
                            x.save_data(os.path.join(scratch, d), label="lab")
                    fn = [sorted(os.listdir(os.path.join(scratch, d))) for d in "nt"]
                    rec.check(fn[0] == fn[1] and len(fn[0]) == 2 * len(members), key, f"{fn}")
                    for n in fn[0]:
                        rec.check(open(os.path.join(scratch, "n", n)).read() == open(os.path.join(scratch, "t", n)).read(), key, f"{n} differs")
                    for k, t in zip(members, twins):
                        a = np.loadtxt(os.path.join(scratch, "n", f"X{k}_lab_frequency_domain_data.dat"))
                        rec.close(a[:, 1] + 1j * a[:, 2], t.frequency_domain_strain, key, 1e-9)
                elif op == "pickle":
                    net.to_pickle(outdir=os.path.join(scratch, "p"), label="lab")
                    fn = os.listdir(os.path.join(scratch, "p"))
                    rec.check(len(fn) == 1, key, f"{fn}")
                    loaded = bilby.gw.detector.InterferometerList.from_pickle(os.path.join(scratch, "p", fn[0]))
                    rec.check(list(loaded) == list(net), key, "loaded network differs")
                    net = loaded
                    shutil.rmtree(os.path.join(scratch, "p"))
            for a, b in zip(net, twins):
                same_ifo(rec, a, b, key)
            rec.check([x.name for x in net] == [t.name for t in twins], key, "members")
    finally:
        shutil.rmtree(scratch)


def groups(tier, seed):
    L = 3 if tier == "quick" else 4
    st = [t for n in range(L + 1) for t in itertools.product("ABF", repeat=n)]
    st += [t for n in (1, 2) for t in itertools.product("NM", repeat=n)] + [(x,) for x in "SRDs"]
    ini = [t for n in range(4) for t in itertools.product(list("ABSN") + ["net", "!num"], repeat=n)]
    names = [(t,) for n in (1, 2, 3) for t in itertools.permutations(["H1", "L1", "V1", "ET"], n)]
    mem = [(0,), (0, 1), (1, 0), (1, 2), (0, 1, 2), (2, 1, 0)]
    ops = ["zero", "noise", "noise2", "pols", "gen", "long", "longok", "nosignal", "save", "pickle"]
    d = 3 if tier == "quick" else 4
    seqs = [s for n in range(1, d + 1) for s in itertools.product(ops, repeat=n) if s[0] in ("zero", "noise")]
    return [Group("lists", st, lists, 300), Group("construction", ini, construction, 60), Group("named", names, named, 60),
            Group("actions", [(m, s) for m in mem for s in seqs], actions, 60)]
