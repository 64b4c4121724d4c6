"""C19: parallel tempering keeps states, temperatures and records coherent."""
import itertools
import pickle
from unittest import mock
import numpy as np
from mc import fakerng
from mc.core import Group
from checks.c18 import Script, Enumerated

PROPERTY = "C19"
LEVEL = "model_checking"
RULE = ("discrete target x temperatures x ensembles: for every joint state of the chains, every proposed point and every lattice answer of every random number, the real sampler is "
        "run and its new joint state recorded; the transition matrix thus obtained is compared with the tempered Metropolis-Hastings kernel and its invariant distribution; "
        "a case = one configuration, states = joint states, transitions = executions")
TECHNIQUE = "explicit-state enumeration: transition matrix of the real sampler over all joint states of a discrete target and all random answers, compared with an independent Metropolis-Hastings model"
ASSUMPTIONS = ["acceptance probabilities are made multiples of the lattice of answers, so that counting answers gives them exactly",
               "proposed points come from a proposal of the harness with a known distribution (the package's own moves are C18)",
               "chains that stopped after convergence (which exchange random past samples) are judged only by their records",
               "evidence uncertainties are estimates and are not compared"]
Q = {True: [[0., 2 / 3, 1 / 3], [1 / 3, 0., 2 / 3], [2 / 3, 1 / 3, 0.]], False: [[0., .5, .5], [.5, 0., .5], [.5, .5, 0.]]}


class Target:
    """States 0..n-1 with the given likelihood and prior; 90 outside the prior, 91 likelihood zero, 92 not a number."""

    def __init__(self, L, p, noise=-3.25):
        self.L, self.p, self.noise, self.n = np.array(L, float), np.array(p, float) / np.sum(p), noise, len(L)

    def logl(self, x):
        x = float(x)
        if x == 91.:
            return -np.inf
        if x == 92.:
            return np.nan
        return float(np.log(self.L[int(round(x))]))

    def logp(self, x):
        x = float(x)
        if x in (91., 92.):
            return -1.
        return float(np.log(self.p[int(round(x))])) if 0 <= x < self.n else -np.inf

    def tempered(self, beta):
        w = self.p * self.L ** beta
        return w / w.sum()


def problem(t, use_ratio=False):
    import bilby
    from bilby.core.sampler import base_sampler

    class Like(bilby.core.likelihood.Likelihood):
        def __init__(self):
            super().__init__(dict())

        def log_likelihood(self):
            return t.logl(self.parameters["x"]) + t.noise

        def noise_log_likelihood(self):
            return t.noise

    class Table(bilby.core.prior.Prior):
        def rescale(self, val):
            return np.floor(val * t.n)

        def ln_prob(self, val):
            return t.logp(val) if np.ndim(val) == 0 else np.array([t.logp(v) for v in np.ravel(val)]).reshape(np.shape(val))

        def prob(self, val):
            return np.exp(self.ln_prob(val))

    class Wide(Table):
        def __init__(self, name="x"):
            super().__init__(name=name, minimum=-1., maximum=99.)

    priors = bilby.core.prior.PriorDict(dict(x=Wide("x"), fixed=bilby.core.prior.DeltaFunction(1.5, name="fixed")))
    like = Like()
    base_sampler._initialize_global_variables(like, priors, ["x"], use_ratio)
    return like, priors


class Move:
    """A proposal that goes where the harness says."""

    def __init__(self):
        self.weight, self.accepted, self.rejected, self.decide, self.seen = 1., 0, 0, None, []

    def __getstate__(self):
        return {**self.__dict__, "seen": []}

    def __call__(self, chain, *args, **kwargs):
        curr = chain.current_sample
        to, factor = self.decide(float(curr["x"]))
        self.seen.append((chain, args, kwargs))
        prop = curr.copy()
        prop["x"] = float(to)
        return prop, factor


def build(t, ntemps=1, nens=1, betas=None, pt_ensemble=False, use_ratio=False, L1=1, L2=1, reject=False, adapt=False, fixed_tau=1, target=10 ** 9, stop=False, pool=None,
          evidence_method="stepping_stone", adapt_t0=100, burn=1, discard=0):
    from bilby.bilby_mcmc import sampler as S, proposals
    problem(t, use_ratio)
    move, ens = Move(), Move()
    conv = S.ConvergenceInputs(autocorr_c=5, burn_in_nact=burn, thin_by_nact=1, fixed_discard=discard, target_nsamples=target, stop_after_convergence=stop, L1steps=L1, L2steps=L2,
                               min_tau=1, fixed_tau=fixed_tau, tau_window=None)
    pt = S.ParallelTemperingInputs(ntemps=ntemps, nensemble=nens, Tmax=None, Tmax_from_SNR=20, initial_betas=betas, adapt=adapt, adapt_t0=adapt_t0, adapt_nu=10, pt_ensemble=pt_ensemble)
    with mock.patch.object(proposals, "get_default_ensemble_proposal_cycle", lambda priors: proposals.ProposalCycle([ens])):
        s = S.BilbyPTMCMCSampler(convergence_inputs=conv, pt_inputs=pt, proposal_cycle=proposals.ProposalCycle([move]), pt_rejection_sample=reject, pool=pool, use_ratio=use_ratio,
                                 evidence_method=evidence_method, initial_sample_method="prior", initial_sample_dict=dict(x=0.))
    return s, move, ens


def force(s, move, state):
    """Bring the chains to the given joint state by accepted moves."""
    with fakerng.installed(fakerng.FakeRNG(lambda: .5)):
        for c, x in zip(s.sampler_list, state):
            n, c.chain.L1steps = c.chain.L1steps, 1
            move.decide = lambda _, x=x: (x, 1000.)
            c.step()
            c.chain.L1steps = n


def states(s):
    return tuple(int(round(float(c.chain.current_sample["x"]))) for c in s.sampler_list)


def recorded(rec, s, t, use_ratio, key):
    """Every chain's last record is its current state and carries its own likelihood and prior."""
    off = 0. if use_ratio else t.noise
    for i, c in enumerate(s.sampler_list):
        for what, v in (("current", c.chain.current_sample), ("last", c.chain[-1])):
            x = float(v["x"])
            if not np.isclose(float(v["logl"]), t.logl(x) + off, rtol=0, atol=1e-12) or not np.isclose(float(v["logp"]), t.logp(x), rtol=0, atol=1e-12):
                rec.fail(key + f":record:{what}", f"chain {i}: the {what} record at x={x} carries logl={v['logl']} logp={v['logp']}, not {t.logl(x) + off} and {t.logp(x)}")
                return False
        if float(c.chain.current_sample["x"]) != float(c.chain[-1]["x"]):
            rec.fail(key + ":record:differ", f"chain {i} continues from {c.chain.current_sample['x']} but its last record is {c.chain[-1]['x']}")
            return False
    return True


def chooser(script, t, asym, extra, n=3):
    q = Q[asym] if n == 3 else [[0., 1.], [1., 0.]]

    def decide(x):
        a = int(round(x))
        targets = [b for b in range(n) if q[a][b] > 0]
        w = [q[a][b] for b in targets]
        if extra:
            targets, w = targets + list(extra), [v * .5 for v in w] + [.5 / len(extra)] * len(extra)
        b = script.take(targets, w)
        return b, (float(np.log(q[b][a] / q[a][b])) if b < n else 0.)
    return decide


def kernel_ref(t, beta, asym, extra, n=3):
    q = np.array(Q[asym] if n == 3 else [[0., 1.], [1., 0.]])
    k = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            if a != b and q[a, b] > 0:
                k[a, b] = q[a, b] * (.5 if extra else 1.) * min(1., t.p[b] * t.L[b] ** beta * q[b, a] / (t.p[a] * t.L[a] ** beta * q[a, b]))
        k[a, a] = 1. - k[a].sum()
    return k


def measure(rec, s, move, ens, t, action, joint, lattice, asym, extra, use_ratio, key, n):
    """Transition matrix of action over all joint states."""
    index = {z: i for i, z in enumerate(joint)}
    out = np.zeros((len(joint), len(joint)))
    ok = True
    for z in joint:
        rec.state((key, z))
        script = Script(dict(uniform=lattice, random=lattice, integers=8))
        while True:
            force(s, move, z)
            script.begin()
            rng = Enumerated(script)
            d = chooser(script, t, asym, extra, n)
            move.decide, ens.decide = d, d
            move.seen.clear(), ens.seen.clear()
            with fakerng.installed(rng):
                action()
            rec.transition()
            z2 = states(s)
            if z2 not in index:
                rec.fail(key + ":impossible", f"from {z} the chains reached {z2}, which has no probability")
                return None
            ok = ok and recorded(rec, s, t, use_ratio, key)
            out[index[z], index[z2]] += script.weight
            if not script.advance():
                break
        if not ok:
            return None
    return out


def lattice_for(*kernels, q=None):
    """the smallest number of answers of which all acceptance probabilities are multiples"""
    for n in (2, 4, 8, 16, 32, 64, 128, 256):
        if all(np.allclose(k * n, np.round(k * n), rtol=0, atol=1e-9) for k in kernels):
            return n
    raise ValueError("acceptance probabilities off the lattice")


def alphas(t, beta, asym, n=3):
    q = np.array(Q[asym] if n == 3 else [[0., 1.], [1., 0.]])
    return np.array([[min(1., t.p[b] * t.L[b] ** beta * q[b, a] / (t.p[a] * t.L[a] ** beta * q[a, b])) if a != b else 1. for b in range(n)] for a in range(n)])


def kron(ms):
    out = np.ones((1, 1))
    for m in ms:
        out = np.kron(out, m)
    return out


# ------------------------------------------------------------ one chain: Metropolis-Hastings steps
TARGETS3 = [((1, 1 / 4, 1 / 16), (1, 1, 1)), ((1 / 4, 1, 1 / 16), (2, 1, 4)), ((1 / 16, 1 / 16, 1), (4, 2, 1))]


def step_kernel(rec, item):
    ti, beta, asym, extra, use_ratio, L1 = item
    key = f"step:target={ti}:beta={beta}:{'asym' if asym else 'sym'}:extra={extra}:ratio={use_ratio}:L1={L1}"
    t = Target(*TARGETS3[ti])
    with rec.guard(key):
        s, move, ens = build(t, ntemps=2, betas=[1., beta] if beta < 1 else [1., .5], use_ratio=use_ratio, L1=L1)
        c = s.sampler_list[1 if beta < 1 else 0]
        other = s.sampler_list[0 if beta < 1 else 1]
        rec.case(key)
        ref = np.linalg.matrix_power(kernel_ref(t, beta, asym, extra), L1)

        class One:
            sampler_list = [c]
        got = measure(rec, One, move, ens, t, c.step, [(i,) for i in range(3)], lattice_for(alphas(t, beta, asym)) * (16 if L1 == 1 else 3), asym, extra, use_ratio, key, 3)
        if got is not None:
            rec.close(got, ref, key + ":kernel", rtol=0, atol=1e-12)
        # the other chain was not touched
        if float(other.chain.current_sample["x"]) != 0. or other.chain.position != 0:
            rec.fail(key + ":other", "stepping one chain changed another")


# ------------------------------------------------------------ exchanges between temperatures
BETAS = {2: [[1., .5], [1., .25], [1., 0.]], 3: [[1., .5, .25], [1., .5, 0.]]}


def swap_ref(t, betas, order, joint, cols):
    index = {z: i for i, z in enumerate(joint)}
    out = np.eye(len(joint))
    for a, b, bi, bj in [(cols[T], cols[T + 1], betas[T], betas[T + 1]) for T in order]:
        k = np.zeros_like(out)
        for z in joint:
            al = min(1., (t.L[z[a]] / t.L[z[b]]) ** (bj - bi))
            w = list(z)
            w[a], w[b] = z[b], z[a]
            k[index[z], index[tuple(w)]] += al
            k[index[z], index[z]] += 1 - al
        out = out @ k
    return out


def swap_kernel(rec, item):
    betas, nens, pt_ensemble, use_ratio, n = item
    key = f"swap:betas={betas}:nens={nens}:pt={pt_ensemble}:ratio={use_ratio}:states={n}"
    base = 16. if .25 in betas else 4.
    t = Target((1, base ** -1, base ** -2)[:n], (1, 2, 1)[:n])
    with rec.guard(key):
        s, move, ens = build(t, ntemps=len(betas), nens=nens, betas=betas, pt_ensemble=pt_ensemble, use_ratio=use_ratio)
        rec.case(key)
        labels = [(c.Tindex, c.Eindex) for c in s.sampler_list]
        rec.equal([float(c.beta) for c in s.sampler_list], [betas[T] for T, E in labels], key + ":betas")
        want = [(T, E) for T in range(len(betas)) for E in range(nens if T == 0 or pt_ensemble else 1)]
        rec.equal(labels, want, key + ":layout")
        joint = list(itertools.product(range(n), repeat=len(labels)))
        lattice = lattice_for(*[np.minimum(1., np.divide.outer(t.L, t.L) ** (b - a)) for a, b in zip(betas, betas[1:])]) * {1: 16, 2: 5, 4: 1}[(len(betas) - 1) * (nens if pt_ensemble else 1)]
        got = measure(rec, s, move, ens, t, s.swap_tempered_chains, joint, lattice, False, (), use_ratio, key, n)
        if got is None:
            return
        columns = [[labels.index((T, E)) for T in range(len(betas))] for E in range(nens if pt_ensemble else 1)]
        orders = [tuple(range(len(betas) - 1)), tuple(reversed(range(len(betas) - 1)))]
        refs = []
        for o in orders:
            r = np.eye(len(joint))
            for cols in columns:
                r = r @ swap_ref(t, betas, o, joint, cols)
            refs.append(r)
        if not any(np.allclose(got, r, rtol=0, atol=1e-12) for r in refs):
            d = np.abs(got - refs[0])
            i, j = np.unravel_index(np.argmax(d), d.shape)
            rec.fail(key + ":kernel", f"from {joint[i]} to {joint[j]} the chains move with probability {got[i, j]:.6g} instead of {refs[0][i, j]:.6g}")
        pi = np.array([np.prod([t.tempered(betas[T])[x] for (T, E), x in zip(labels, z)]) for z in joint])
        rec.close(pi @ got, pi, key + ":invariant", rtol=0, atol=1e-12)


# ------------------------------------------------------------ moves between the members of an ensemble
def ensemble_kernel(rec, item):
    betas, nens, pt_ensemble, use_ratio, extra = item
    key = f"ensemble:betas={betas}:nens={nens}:pt={pt_ensemble}:ratio={use_ratio}:extra={extra}"
    t = Target((1, 1 / 4), (1, 2)) if 0.25 not in betas else Target((1, 1 / 16), (1, 2))
    with rec.guard(key):
        s, move, ens = build(t, ntemps=len(betas), nens=nens, betas=betas, pt_ensemble=pt_ensemble, use_ratio=use_ratio)
        rec.case(key)
        labels = [(c.Tindex, c.Eindex) for c in s.sampler_list]
        joint = list(itertools.product(range(2), repeat=len(labels)))
        bad = []

        def action():
            s.ensemble_step()
            for chain, args, kwargs in ens.seen:
                me = [c for c in s.sampler_list if c.chain is chain]
                if len(me) != 1:
                    bad.append("the chain handed to the move is none of the chains")
                    continue
                given = [c for c in list(args) + list(kwargs.values())][0]
                others = [c.chain for c in s.sampler_list if c.Tindex == me[0].Tindex and c is not me[0]]
                if sorted(map(id, given)) != sorted(map(id, others)):
                    bad.append(f"the move of {(me[0].Tindex, me[0].Eindex)} was given {len(given)} chains which are not the other {len(others)} of its temperature")
        lattice = lattice_for(*[alphas(t, b, False, 2) for b in betas]) * (12 if len(labels) <= 2 else 5 if len(labels) == 3 else 2)
        got = measure(rec, s, move, ens, t, action, joint, lattice, False, extra, use_ratio, key, 2)
        if bad:
            rec.fail(key + ":complement", bad[0])
        if got is None:
            return
        groups = [sum(1 for L in labels if L[0] == T) for T, _ in labels]
        ref = kron([kernel_ref(t, betas[T], False, extra, 2) if groups[i] > 1 else np.eye(2) for i, (T, E) in enumerate(labels)])
        rec.close(got, ref, key + ":kernel", rtol=0, atol=1e-12)


# ------------------------------------------------------------ whole iterations
class Pool:
    """Stand-in for a process pool: what crosses to the workers and back is copied."""
    _processes = 2

    def map(self, f, items):
        return [pickle.loads(pickle.dumps(f(pickle.loads(pickle.dumps(i))))) for i in items]


def iteration_kernel(rec, item):
    betas, nens, pt_ensemble, use_ratio, L1, L2, n = item
    key = f"iteration:betas={betas}:nens={nens}:pt={pt_ensemble}:ratio={use_ratio}:L1={L1}:L2={L2}:states={n}"
    t = Target((1, 1 / 16, 1 / 256)[:n], (1, 1, 1)[:n]) if n == 3 else Target((1, 1 / 4), (1, 1))
    with rec.guard(key):
        s, move, ens = build(t, ntemps=len(betas), nens=nens, betas=betas, pt_ensemble=pt_ensemble, use_ratio=use_ratio, L1=L1, L2=L2)
        rec.case(key)
        labels = [(c.Tindex, c.Eindex) for c in s.sampler_list]
        joint = list(itertools.product(range(n), repeat=len(labels)))

        move.decide = ens.decide = lambda x: (x, 0.)
        for _ in range(3):
            s.step_all_chains()  # the first exchange comes one iteration late

        def action():
            before = [c.chain.position for c in s.sampler_list]
            s.step_all_chains()
            grown = [c.chain.position - b for c, b in zip(s.sampler_list, before)]
            if min(grown) < 1:
                rec.fail(key + ":grown", f"one iteration extended the chains by {grown}")
        got = measure(rec, s, move, ens, t, action, joint, 4, False, (), use_ratio, key, n)
        if got is None:
            return
        pi = np.array([np.prod([t.tempered(betas[T])[x] for (T, E), x in zip(labels, z)]) for z in joint])
        rec.close(pi @ got, pi, key + ":invariant", rtol=0, atol=1e-12)


def history(rec, item):
    """Sequences of iterations with scripted answers: a pooled run does what a serial run does, exchanges happen every L2steps, records stay coherent."""
    betas, nens, pt_ensemble, use_ratio, L2, depth = item
    key = f"history:betas={betas}:nens={nens}:pt={pt_ensemble}:ratio={use_ratio}:L2={L2}:depth={depth}"
    t = Target((1, 1 / 4, 1 / 16), (1, 2, 1))
    with rec.guard(key):
        rec.case(key)
        for word in itertools.product((1e-6, .4, 1 - 1e-6), repeat=depth):
            rec.state((key, word))
            runs = []
            for pool in (None, Pool()):
                s, move, ens = build(t, ntemps=len(betas), nens=nens, betas=betas, pt_ensemble=pt_ensemble, use_ratio=use_ratio, L2=L2, pool=pool)
                trail = []
                for k, u in enumerate(word):
                    step_at = [0]

                    def unit(u=u):
                        step_at[0] += 1
                        return u if step_at[0] % 2 else 1 - u
                    for c in s.sampler_list:
                        for prop in c.proposal_cycle.proposal_list + c.proposal_cycle.weighted_proposal_list:
                            prop.decide = cyc
                    for prop in s.ensemble_proposal_cycle.proposal_list:
                        prop.decide = cyc
                    for prop in s.ensemble_proposal_cycle.weighted_proposal_list:
                        prop.decide = cyc
                    with fakerng.installed(fakerng.FakeRNG(unit)):
                        s.step_all_chains()
                    rec.transition()
                    if not recorded(rec, s, t, use_ratio, key):
                        return
                    trail.append(tuple(tuple(tuple(float(v[q]) for q in ("x", "logl", "logp")) for v in [c.chain[i] for i in range(c.chain.position + 1)]) for c in s.sampler_list))
                    rec.check([float(c.beta) for c in s.sampler_list] == [betas[c.Tindex] for c in s.sampler_list], key + ":beta", "the temperatures changed without adaptation")
                runs.append(trail)
                off = 0. if use_ratio else t.noise
                for c in s.sampler_list:
                    for i in range(c.chain.position + 1):
                        v = c.chain[i]
                        if abs(v["logl"] - t.logl(v["x"]) - off) > 1e-12 or abs(v["logp"] - t.logp(v["x"])) > 1e-12:
                            return rec.fail(key + ":all-records", f"sample {i} at x={v['x']} carries logl={v['logl']}, logp={v['logp']}")
            rec.trace()
            if runs[0] != runs[1]:
                rec.fail(key + ":pool", f"with a pool the chains differ from the serial run for answers {word}")


def cyc(x):
    return (int(round(x)) + 1) % 3, 0.


def schedule(rec, item):
    """How often exchanges happen"""
    L2, nens, ntemps = item
    key = f"schedule:L2={L2}:nens={nens}:ntemps={ntemps}"
    with rec.guard(key):
        rec.case(key)
        betas = [1., .5, .25][:ntemps]
        t = Target((1, 1 / 4, 1 / 16), (1, 2, 1))
        s, move, ens = build(t, ntemps=ntemps, nens=nens, betas=betas, pt_ensemble=True, L2=L2)
        move.decide = ens.decide = cyc
        seen = []
        with fakerng.installed(fakerng.FakeRNG(lambda: .5)):
            for _ in range(6 * L2 + 2):
                swaps = [c.pt_accepted + c.pt_rejected for c in s.sampler_list]
                ens.seen.clear()
                s.step_all_chains()
                rec.transition()
                seen.append((sum(c.pt_accepted + c.pt_rejected for c in s.sampler_list) - sum(swaps), len(ens.seen)))
        temp = [i for i, v in enumerate(seen) if v[0]]
        ensm = [i for i, v in enumerate(seen) if v[1]]
        if ntemps > 1:
            rec.check(temp and set(np.diff(temp)) == {L2}, key + ":temperature", f"exchanges between temperatures happen at iterations {temp}, not every {L2}")
        else:
            rec.check(not temp, key + ":temperature", "exchanges with a single temperature")
        if nens > 1:
            rec.check(ensm and set(np.diff(ensm)) == {L2}, key + ":ensemble", f"ensemble moves happen at iterations {ensm}, not every {L2}")
        else:
            rec.check(not ensm, key + ":ensemble", "ensemble moves with a single member")


# ------------------------------------------------------------ samples and evidence
def fill(s, move, words, script=None):
    """Extend every chain by its word of states (accepted moves)."""
    for c, word in zip(s.sampler_list, words):
        for x in word:
            with fakerng.installed(fakerng.FakeRNG(lambda: .5)):
                move.decide = lambda _, x=x: (x, 1000.)
                c.step()


def rejection(rec, item):
    betas, nens, pt_ensemble, use_ratio = item
    key = f"rejection:betas={betas}:nens={nens}:pt={pt_ensemble}:ratio={use_ratio}"
    t = Target((1, 1 / 4, 1 / 16), (1, 2, 1))
    off = 0. if use_ratio else t.noise
    with rec.guard(key):
        rec.case(key)
        for shift in range(6):
            s, move, ens = build(t, ntemps=len(betas), nens=nens, betas=betas, pt_ensemble=pt_ensemble, use_ratio=use_ratio, reject=True, discard=2)
            words = [[(i * (k + shift + 1) + k + shift) % 3 for i in range(30)] for k in range(len(s.sampler_list))]
            fill(s, move, words)
            for u in (.01, .1, .3, .6, .9, .99):
                rec.state((key, shift, u))
                expected = []
                for c in s.sampler_list:
                    lo = c.chain.minimum_index
                    if c.beta == 1:
                        expected.append(None)
                        continue
                    xs = [float(c.chain[i]["x"]) for i in range(lo, c.chain.position + 1)]
                    expected.append((xs, c.beta))
                with fakerng.installed(fakerng.FakeRNG(lambda: u)):
                    n = s.nsamples_nocache
                    s._cached_samples = (False,)
                    df = s.samples
                rec.transition()
                rec.check(n == len(df), key + ":count", f"nsamples is {n} but there are {len(df)} samples")
                for x, l, p in df[["x", "logl", "logp"]].to_numpy():
                    if abs(l - t.logl(x) - off) > 1e-12 or abs(p - t.logp(x)) > 1e-12:
                        rec.fail(key + ":record", f"sample x={x} carries logl={l} logp={p} instead of {t.logl(x) + off} {t.logp(x)}")
                        return
                # kept exactly those whose relative weight exceeds the answer
                want = []
                for c, e in zip(s.sampler_list, expected):
                    if e is None:
                        want += [float(v) for v in c.chain.samples["x"]]
                for e in expected:
                    if e is not None:
                        xs = e[0]
                        w = np.array([t.L[int(x)] ** (1 - e[1]) for x in xs])
                        kept = [x for x, v in zip(xs, w / w.max()) if v > u]
                        want += kept
                a, b = sorted(want), sorted(float(v) for v in df["x"])
                tempered = sum(e is not None for e in expected)
                # the last record of a chain may or may not be used
                if abs(len(a) - len(b)) > tempered or any(abs(a.count(v) - b.count(v)) > tempered for v in (0., 1., 2.)):
                    rec.fail(key + ":kept", f"rejection with answers {u} kept {[b.count(v) for v in (0., 1., 2.)]} of the states instead of {[a.count(v) for v in (0., 1., 2.)]}")
            rec.trace()


def evidence(rec, item):
    betas, nens, pt_ensemble, use_ratio, tau = item
    key = f"evidence:betas={betas}:nens={nens}:pt={pt_ensemble}:ratio={use_ratio}:tau={tau}"
    t = Target((1, 1 / 4, 1 / 16), (1, 2, 1))
    with rec.guard(key):
        rec.case(key)
        for shift in range(12):
            rec.state((key, shift))
            s, move, ens = build(t, ntemps=len(betas), nens=nens, betas=betas, pt_ensemble=pt_ensemble, use_ratio=use_ratio, fixed_tau=tau, discard=3)
            words = [[int((i * (k + 1) + (i * i) // (shift + 2) + k + shift) % 3) for i in range(80)] for k in range(len(s.sampler_list))]
            fill(s, move, words)
            cols = [[c for c in s.sampler_list if c.Eindex == E] for E in range(nens if pt_ensemble else 1)]
            thermo, stones = [], []
            for col in cols:
                col = sorted(col, key=lambda c: c.beta)
                lo = [c.chain.minimum_index for c in col]
                vals = [np.array([float(c.chain[i]["logl"]) for i in range(c.chain.position + 1)]) for c in col]
                m = [v[a:].mean() for v, a in zip(vals, lo)]
                thermo.append(sum((m[i] + m[i + 1]) / 2 * (col[i + 1].beta - col[i].beta) for i in range(len(col) - 1)))
                a = max(lo)
                tt = 0.
                for i in range(len(col) - 1):
                    v = vals[i][a::int(s.tau)]
                    tt += np.log(np.mean(np.exp((col[i + 1].beta - col[i].beta) * v)))
                stones.append(tt)
            want = dict(thermodynamic=np.log(np.mean(np.exp(thermo))), stepping_stone=np.log(np.mean(np.exp(stones))))
            for again in range(2):
                s.compute_evidence(outdir=None, label=None, make_plots=False)
                rec.transition()
                for name, v in want.items():
                    rec.close(s.ln_z_dict[name], v, key + f":{name}", rtol=0, atol=1e-9)
                for m in ("stepping_stone", "thermodynamic"):
                    s.evidence_method = m
                    rec.close(s.ln_z, want[m], key + ":selected:" + m, rtol=0, atol=1e-9)
            rec.trace()


def adapt(rec, item):
    """Temperature adaptation: ends fixed, ladder ordered, every member's ladder its own; what was recorded at another temperature is not used as if it were from the present one."""
    betas, nens, pt_ensemble, word = item
    key = f"adapt:betas={betas}:nens={nens}:pt={pt_ensemble}:{word}"
    t = Target((1, 1 / 4, 1 / 16), (1, 2, 1))
    with rec.guard(key):
        rec.case(key)
        s, move, ens = build(t, ntemps=len(betas), nens=nens, betas=betas, pt_ensemble=pt_ensemble, adapt=True, adapt_t0=3, L2=2)
        ens.decide = cyc
        changed = [0] * len(s.sampler_list)
        k = 0
        for it in range(60):
            old = [float(c.beta) for c in s.sampler_list]
            at = [0]

            def decide(x):
                at[0] += 1
                return (int(round(x)) + 1) % 3, (1000. if word[(at[0] + it) % len(word)] == "a" else -1000.)
            move.decide = decide
            at_swap = [c.chain.position + 1 for c in s.sampler_list]
            with fakerng.installed(fakerng.FakeRNG(lambda: .5)):
                s.step_all_chains()
            rec.transition()
            new = [float(c.beta) for c in s.sampler_list]
            for i, (a, b) in enumerate(zip(old, new)):
                if a != b:
                    changed[i] = s.sampler_list[i].chain.position
                    k += 1
            if it >= 59 or it % 10 == 9:
                rec.state((key, it))
                for i, c in enumerate(s.sampler_list):
                    if c.Tindex in (0, len(betas) - 1):
                        rec.check(new[i] == betas[c.Tindex], key + ":ends", f"the temperature of chain {c.Tindex} moved to {new[i]}")
                    else:
                        rec.check(0. < new[i] < 1., key + ":range", f"inverse temperature {new[i]}")
                    if changed[i] and c.chain.minimum_index < changed[i]:
                        rec.fail(key + ":old-samples", f"the samples of chain ({c.Tindex},{c.Eindex}) start at {c.chain.minimum_index} although its temperature changed at {changed[i]}")
                        return
        rec.check(it < 59 or k == 0 or max(changed) < 50, key + ":ended", "adaptation goes on after its end")
        rec.trace()


def groups(tier, seed):
    deep = tier == "thorough"
    ext = (90., 91., 92.)
    steps = [(ti, b, a, e, r, L1) for ti in range(3) for b in (1., .5, 0.) for a in (False, True) for e in ((), ext) for r in (False, True) for L1 in ((1, 2) if (deep or not e) and b != 0. else (1,))]
    swaps = [(b, 1, pe, r, 3) for b in BETAS[2] for pe in (False,) for r in (False, True)]
    swaps += [(b, ne, pe, r, 2) for b in ([1., .5], [1., 0.], [1., .5, 0.]) for ne, pe in ((1, False), (2, False), (2, True)) for r in (False, True)]
    enss = [(b, ne, pe, r, e) for b in ([1.], [1., .5]) for ne, pe in ((2, False), (2, True)) for r in (False, True) for e in ((), (91.,)) if len(b) * (2 if pe else 1) < 4 or not e or deep]
    enss += [([1.], 3, False, r, ()) for r in (False, True)]
    its = [([1., .5], 1, False, r, 1, L2, 2) for r in (False, True) for L2 in (1,)] + [([1., 0.], 1, False, False, 1, 1, 2), ([1.], 1, False, False, 2, 1, 2), ([1., .5], 1, False, False, 2, 1, 2)]
    its += [([1., .5, 0.], 1, False, False, 1, 1, 2)]
    if deep:
        its += [([1., .5], 2, False, True, 1, 1, 2), ([1.], 2, False, False, 1, 1, 2)]
    hist = [(b, ne, pe, r, L2, 5 if deep else 3) for b in ([1.], [1., .5], [1., .5, .25]) for ne, pe in ((1, False), (2, False), (2, True)) for r in (False, True) for L2 in (1, 2)]
    sched = [(L2, ne, nt) for L2 in (1, 2, 3, 5) for ne in (1, 2, 3) for nt in (1, 2, 3)]
    rej = [(b, ne, pe, r) for b in ([1.], [1., .5], [1., .5, .25]) for ne, pe in ((1, False), (2, False), (2, True)) for r in (False, True)]
    evi = [(b, ne, pe, r, tau) for b in ([1., .5], [1., .5, .25], [1., .6, .3, 0.]) for ne, pe in ((1, False), (2, False), (2, True)) for r in (False, True) for tau in (1, 3)]
    ada = [(b, ne, pe, w) for b in ([1., .5, .25], [1., .5, .3, .1], [1., .6, .3, .2, 0.]) for ne, pe in ((1, False), (2, False), (2, True)) for w in ("a", "ar", "aar", "rra")]
    return [Group("step", steps, step_kernel, 300 if deep else 60), Group("swap", swaps, swap_kernel, 60), Group("ensemble", enss, ensemble_kernel, 300 if deep else 60), Group("iteration", its, iteration_kernel, 700 if deep else 60),
            Group("history", hist, history, 600 if deep else 60), Group("schedule", sched, schedule, 20), Group("rejection", rej, rejection, 40), Group("evidence", evi, evidence, 40), Group("adapt", ada, adapt, 40)]
