"""C16-C18, C22, C23: reproducibility, noise, scheduling of steps, stationary distribution, initial momenta."""
import itertools
import random
import time

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pbt.checks.protocol import ALL, any_sampler, cost_function, dimension, label
from pbt.checks.steps import HYPER, burn_in_of, initial_momenta, maybe_seed
from pbt.checks.svgd import particle_specs
from pbt.child import in_process
from pbt.core import Part, Skip, require, sut
from pbt.drive import DEFAULTS, construct, follow
from pbt.models import SGHMC, SGLD, Relativistic
from pbt.obs import METHODS, Cost, Schedule, World, cost_specs, flatten, listed, param_specs, sampler_class, stepsizes
from pbt.shims import tf
from pbt.util import floats, mod, other_seeds, seeds32

# C16 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c16_cases(draw, kind="short"):
    case = draw(any_sampler(max_steps=7, kind=kind))
    case["seed"] = draw(seeds32)
    case["cost"] = draw(cost_specs())
    case["data"] = draw(st.one_of(st.none(), st.none(), st.integers(3, 12)))
    case["threads"] = draw(st.sampled_from([None, 1, 2, 8]))
    case["reseed"] = draw(st.integers(0, 1000))
    case["neighbours"] = draw(st.lists(st.tuples(st.sampled_from(METHODS), st.booleans(), st.sampled_from(["same seed", "other seed", "no seed"])).map(list), max_size=2))
    case["other_seed"] = draw(other_seeds(case["seed"]))
    return case


def chain(case, seed, disturbed):
    """Samples and costs of a chain; `disturbed` by everything that must not matter."""
    with World(threads=case["threads"] if disturbed else 1) as world:
        def disturb(k):
            if disturbed:
                np.random.seed(case["reseed"] + k)
                np.random.uniform(size=k)
                random.seed(case["reseed"] + k)

        disturb(0)
        params = world.make_params(case)
        cost = Cost(case["cost"], dimension(case), case["dtype"])
        fun, more = cost_function(case, cost), {}
        if case["data"]:
            dtype = np.dtype(case["dtype"])
            x_ph, y_ph = tf.placeholder(dtype), tf.placeholder(dtype)
            x = np.arange(2.0 * case["data"]).reshape(-1, 2).astype(dtype)
            plain = fun
            fun = lambda ps: plain(ps) * (1 + tf.reduce_mean(x_ph) / 10 + tf.reduce_mean(y_ph) / 20)
            more["batch_generator"] = mod("pysgmcmc.data_batches").generate_shuffled_batches(
                x, x[:, 0], x_ph, y_ph, batch_size=2, seed=3)
        others = []

        def neighbours(early):
            if not disturbed:
                return
            for i, (method, first, seeded) in enumerate(case["neighbours"]):
                if first == early:
                    theirs = [tf.Variable(np.ones([2, 2]), dtype=tf.float64, name="other%d" % i)]
                    kwargs = {"same seed": {"seed": seed}, "other seed": {"seed": 5}, "no seed": {}}[seeded]
                    with sut("constructing"):
                        others.append(sampler_class(method)(params=theirs, cost_fun=lambda ps: tf.reduce_sum(tf.square(ps[0])), session=world.session, **kwargs))

        neighbours(True)
        disturb(1)
        sampler = construct(case["method"], params, fun, world.session, dict(case, seed=seed), Schedule(case["eps"]), **more)
        neighbours(False)
        world.initialize()
        steps = []
        for t in range(case["steps"]):
            disturb(t + 2)
            with sut("sampler step"):
                for k, other in enumerate(others):
                    if (t + k) % 2 == 0:
                        next(other)
                sample, cost_value = next(sampler)
            steps.append((flatten(listed(sample, len(params))), np.asarray(cost_value, "float64").reshape(-1)))
    return steps


def run_c16(case, ctx):
    a, b = chain(case, case["seed"], False), chain(case, case["seed"], True)
    tolerance = 1e-9 if case["dtype"] == "float64" else 1e-4
    stable = True
    for t, ((x, u), (y, v)) in enumerate(zip(a, b)):
        if not (np.all(np.isfinite(x)) and np.max(np.abs(x)) < 1e4):
            stable = False
            break
        require(np.all(np.abs(x - y) <= tolerance * (1 + np.abs(x))) and np.all(np.abs(u - v) <= tolerance * (1 + 100 * np.abs(u))),
                "two chains with seed %d differ in step %d: %s and %s (costs %s, %s)", case["seed"], t + 1, x, y, u, v)
    hyper = dict(DEFAULTS, **case["hyper"])
    noisy = {"SGHMC": hyper["mdecay"] > 0 and hyper["scale_grad"] < 1e5, "SGLD": hyper["scale_grad"] < 1e5,
             "RelativisticSGHMC": True, "SVGD": False}[case["method"]]
    # (noise at its floor of 1e-8 is below the resolution of single precision)
    if noisy and stable and case["dtype"] == "float64" and case["other_seed"] != case["seed"]:
        c = chain(case, case["other_seed"], False)
        require(any(np.any(x != y) for (x, _), (y, _) in zip(a, c)), "seeds %d and %d give the same chain %s", case["seed"], case["other_seed"], a)
        ctx.label("seeds compared")
    label(case, ctx)
    ctx.label("%d neighbours" % len(case["neighbours"]), "data" if case["data"] else "no data")
    ctx.nontrivial(stable and len(a) >= 2)


@st.composite
def process_cases(draw):
    case = draw(c16_cases())
    case["threads"], case["neighbours"] = 1, []
    case["hash_seeds"] = draw(st.lists(st.integers(0, 1000), min_size=2, max_size=2, unique=True))
    return case


def chain_in_process(case):
    return [[x.tolist(), u.tolist()] for x, u in chain(case, case["seed"], False)]


def run_processes(case, ctx):
    """A chain is the same in every process."""
    a, b = [in_process("randomness", "chain_in_process", case, h) for h in case["hash_seeds"]]
    tolerance = 1e-9 if case["dtype"] == "float64" else 1e-4
    for t, ((x, u), (y, v)) in enumerate(zip(a, b)):
        x, u, y, v = [np.array(w) for w in (x, u, y, v)]
        if not (np.all(np.isfinite(x)) and np.max(np.abs(x)) < 1e4):
            break
        require(np.all(np.abs(x - y) <= tolerance * (1 + np.abs(x))) and np.all(np.abs(u - v) <= tolerance * (1 + 100 * np.abs(u))),
                "the chains of two processes with seed %d differ in step %d: %s and %s (costs %s, %s)", case["seed"], t + 1, x, y, u, v)
    label(case, ctx)
    ctx.nontrivial(len(a) >= 2)


# C17 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c17_cases(draw):
    method = draw(st.sampled_from(METHODS))
    case = {"method": method, "dtype": "float64"}
    case["shapes"] = draw(st.lists(st.sampled_from([[], [1], [2], [3], [2, 2], [3, 2], [5], [4, 1]]), min_size=1, max_size=5)
                          .filter(lambda shapes: sum(int(np.prod(s, dtype=int)) for s in shapes) >= 2))
    case["start"] = [0.0] * sum(int(np.prod(s, dtype=int)) for s in case["shapes"])
    hyper = draw(HYPER[method]())
    if method == "RelativisticSGHMC":
        hyper.update(D=draw(st.sampled_from([0.5, 1.0, 2.0])))
    elif "scale_grad" in hyper:
        hyper["scale_grad"] = min(hyper["scale_grad"], 100.0)
    if method == "SGHMC" and hyper.get("mdecay", 0.05) < 0.05:
        hyper["mdecay"] = 0.05
    if method != "RelativisticSGHMC":
        hyper["burn_in_steps"] = draw(st.sampled_from([0, 3, 20]))
    case["hyper"] = hyper
    if method != "RelativisticSGHMC":       # (momenta cannot be inferred from displacements in single precision)
        case["dtype"] = draw(st.sampled_from(["float64", "float64", "float32"]))
        if case["dtype"] == "float32" and method == "SGHMC":
            hyper["mdecay"] = max(hyper.get("mdecay", 0.05), 0.05)
    case["eps"] = [draw(st.sampled_from([0.01, 0.1, 0.05]))]
    seed = draw(st.one_of(st.none(), seeds32, seeds32))
    case["seed"] = seed
    case["second"] = draw(st.one_of(st.just((seed + 1) % 2 ** 32), other_seeds(seed))) if seed is not None else None
    return case


def innovations(case, seed, steps):
    """Noise of a chain on a flat cost divided by its prescribed scale, as array steps x elements."""
    eps, n = case["eps"][0], len(case["start"])
    h = dict(DEFAULTS, **case["hyper"])
    with World() as world:
        params = world.make_params(case)
        sampler = construct(case["method"], params, lambda ps: 0.0 * tf.add_n([tf.reduce_sum(p) for p in ps]),
                            world.session, dict(case, seed=seed), Schedule([eps]))
        world.initialize()
        x, xs = flatten(world.session.run(params)), []
        with sut("sampler steps"):
            for _ in range(steps):
                sample, _ = next(sampler)
                xs.append(flatten(listed(sample, len(params))))
    deltas = np.diff(np.concatenate([x[None], xs]), axis=0)
    if case["dtype"] == "float32":
        noise_of_rounding = 1e-7 * np.max(np.abs(xs))
        if noise_of_rounding > 0.01 * np.std(deltas):
            raise Skip()
    zero = np.zeros(n)
    if case["method"] == "RelativisticSGHMC":
        model = Relativistic(h["mass"], h["speed_of_light"], h["D"], h["Bhat"])
        p = model.momentum_of(np.clip(deltas / eps, -model.c * (1 - 1e-13), model.c * (1 - 1e-13)))
        return (p[1:] - p[:-1] + model.D * eps * model.velocity(p[:-1])) / np.sqrt(eps * (2 * model.D - eps * model.Bhat))
    if case["method"] == "SGLD":
        model = SGLD(n, h["burn_in_steps"], h["A"], float(h["scale_grad"]))
        return np.array([d / model.step(zero, zero, eps, np.ones(n), 0)[0] for d in deltas])
    model = SGHMC(n, h["burn_in_steps"], h["mdecay"], float(h["scale_grad"]))
    result, v = [], zero
    for d in deltas:
        model.momentum = zero
        sigma = model.step(zero, zero, eps, np.ones(n), 0)[0]
        result.append((d - (1 - h["mdecay"]) * v) / sigma)
        v = d
    return np.array(result)


LIMIT = 7.0     # standard errors


def uncorrelated(a, b, lag, what):
    """All columns of `a` against all columns of `b`, `lag` steps later."""
    x, y = a[:len(a) - lag], b[lag:]
    r = x.T @ y / len(x)
    if a is b and lag == 0:
        r = r * (1 - np.eye(len(r)))
    worst = np.unravel_index(np.argmax(np.abs(r)), r.shape)
    require(np.abs(r[worst]) * np.sqrt(len(x)) < LIMIT, "%s: elements %d and %d (%d steps later) are correlated by %.3f over %d steps",
            what, worst[0], worst[1], lag, r[worst], len(x))


def unrepeated(z):
    """No element's noise comes back at a later step, neither in the same nor in another element."""
    steps, n = z.shape
    size = 2 ** int(np.ceil(np.log2(2 * steps)))
    f = np.fft.rfft(z, size, axis=0)
    for i in range(n):
        r = np.fft.irfft(f[:, i:i + 1].conj() * f, size, axis=0)[4:steps - 100]
        worst = np.unravel_index(np.argmax(np.abs(r)), r.shape)
        count = steps - 4 - worst[0]
        require(abs(r[worst]) < 9 * np.sqrt(count), "elements %d and %d, %d steps later, are correlated by %.3f over %d steps",
                i, worst[1], worst[0] + 4, r[worst] / count, count)


@st.composite
def wide_cases(draw):
    case = draw(c17_cases())
    case["shapes"] = draw(st.sampled_from([[[1500]], [[40, 30], [300]], [[700], [700], [5]], [[50], [10, 10, 10], [], [20, 20]],
                                           [[33, 33]], [[2, 600], [600, 2]], [[]] * 160]))
    case["start"] = []
    case["steps"] = draw(st.integers(40, 70))
    return case


def run_wide(case, ctx):
    """Many elements: no two of them receive the same noise, be it at the same or at neighbouring steps."""
    n = sum(int(np.prod(s, dtype=int)) for s in case["shapes"])
    z = innovations(dict(case, start=[0.0] * n), case["seed"], case["steps"])
    require(np.all(np.isfinite(z)), "noise of a flat chain is not finite")
    total = z.size
    require(abs(z.mean()) * np.sqrt(total) < LIMIT, "the mean of %d noise values is %.4f", total, z.mean())
    require(abs(z.var() - 1) * np.sqrt(total / 2) < LIMIT + 1, "the variance of %d noise values is %.4f", total, z.var())
    p = stats.kstest(z.reshape(-1), "norm").pvalue
    require(p > 1e-11, "the noise is not standard normal: KS test over %d values has p = %g", total, p)
    for lag in (0, 1, 2):
        x, y = z[:len(z) - lag], z[lag:]
        r = (x / np.linalg.norm(x, axis=0)).T @ (y / np.linalg.norm(y, axis=0))
        if lag == 0:
            r = r * (1 - np.eye(n))
        worst = np.unravel_index(np.argmax(np.abs(r)), r.shape)
        # (P(|r| > .9) for 40 values is about 1e-15, for 2e6 pairs)
        require(abs(r[worst]) < 0.93, "elements %d and %d of the noise (%d steps later) are correlated by %.3f over %d steps",
                worst[0], worst[1], lag, r[worst], len(x))
    # the noise of one step, shifted along the elements
    for row in z[:6]:
        f = np.fft.rfft(row, 4096)
        r = np.fft.irfft(np.abs(f) ** 2, 4096)[1:n - 100]
        shift = int(np.argmax(np.abs(r)))
        require(abs(r[shift]) < 9 * np.sqrt(n - 1 - shift), "noise %d elements apart is correlated by %.3f", shift + 1, r[shift] / (n - 1 - shift))
    ctx.label(case["method"], "seeded" if case["seed"] is not None else "unseeded")
    ctx.nontrivial()


@st.composite
def huge_cases(draw):
    case = draw(c17_cases())
    if case["method"] == "RelativisticSGHMC":       # (its momenta take long to draw)
        case["method"] = draw(st.sampled_from(["SGHMC", "SGLD"]))
        case["hyper"] = {"burn_in_steps": draw(st.sampled_from([0, 3])), "scale_grad": draw(st.sampled_from([1.0, 10.0]))}
    case["dtype"] = "float64"
    case["shapes"] = draw(st.one_of(
        st.sampled_from([[[100, 100], [100]], [[256, 32]], [[50, 50], [50], [50, 50], [50], [50, 50], [50]], [[8192]], [[3], [20000]],
                         [[16, 16, 16], [16, 16, 16]], [[4096], []], [[1, 32768]]]),
        st.integers(2000, 30000).map(lambda n: [[n]]), st.tuples(st.integers(40, 160), st.integers(40, 160)).map(lambda s: [list(s), [s[1]]])))
    case["start"] = []
    case["steps"] = draw(st.integers(2, 5))
    return case


def run_huge(case, ctx):
    """Parameters of the size of a network's layers: no element's noise is that of another one, in the same or in another step."""
    n = sum(int(np.prod(s, dtype=int)) for s in case["shapes"])
    z = innovations(dict(case, start=[0.0] * n), case["seed"], case["steps"])
    require(np.all(np.isfinite(z)), "noise of a flat chain is not finite")
    total = z.size
    require(abs(z.mean()) * np.sqrt(total) < LIMIT, "the mean of %d noise values is %.4f", total, z.mean())
    require(abs(z.var() - 1) * np.sqrt(total / 2) < LIMIT + 1, "the variance of %d noise values is %.4f", total, z.var())
    flat = z.reshape(-1)
    p = stats.kstest(flat, "norm").pvalue
    require(p > 1e-11, "the noise is not standard normal: KS test over %d values has p = %g", total, p)
    # the sizes of two of N independent values differ by less than d with probability of about 0.56 d, for each of their N neighbours in order
    gaps = np.diff(np.sort(np.abs(flat)))
    close = 1e-10
    expected = total * total * 0.56 * close
    require(np.sum(gaps < close) <= 10 + 10 * expected, "%d of the noise values of %d elements in %d steps have the size of another one", np.sum(gaps < close), n, len(z))
    size = 2 ** int(np.ceil(np.log2(2 * total)))
    f = np.fft.rfft(flat, size)
    r = np.fft.irfft(np.abs(f) ** 2, size)[1:total - 100]
    shift = int(np.argmax(np.abs(r) / np.sqrt(total - 1 - np.arange(len(r)))))
    require(abs(r[shift]) < 9 * np.sqrt(total - 1 - shift), "noise %d elements apart (of %d in a step) is correlated by %.3f", shift + 1, n, r[shift] / (total - 1 - shift))
    ctx.label(case["method"], "seeded" if case["seed"] is not None else "unseeded")
    ctx.nontrivial()


def run_c17(case, ctx):
    steps = 500
    z = innovations(case, case["seed"], steps)
    total = z.size
    require(np.all(np.isfinite(z)), "noise of a flat chain is not finite")
    require(abs(z.mean()) * np.sqrt(total) < LIMIT, "the mean of %d noise values is %.4f", total, z.mean())
    require(abs(z.var() - 1) * np.sqrt(total / 2) < LIMIT + 1, "the variance of %d noise values is %.4f", total, z.var())
    columns = z.var(axis=0)
    require(np.all(np.abs(columns - 1) * np.sqrt(steps / 2) < LIMIT + 2), "the variances of the elements' noise are %s", columns)
    p = stats.kstest(z.reshape(-1), "norm").pvalue
    require(p > 1e-11, "the noise is not standard normal: KS test over %d values has p = %g", total, p)
    half = z[:steps // 2], z[steps // 2:]
    for part in half:
        require(abs(part.var() - 1) * np.sqrt(part.size / 2) < LIMIT + 1, "the variance of half the chain's noise is %.4f", part.var())
    for lag in (0, 1, 2, 3):
        uncorrelated(z, z, lag, "one chain")
    unrepeated(z)
    if case["seed"] is not None:
        w = innovations(case, case["second"], steps)
        for lag in (0, 1):
            uncorrelated(z, w, lag, "chains with seeds %d and %d" % (case["seed"], case["second"]))
            uncorrelated(w, z, lag, "chains with seeds %d and %d" % (case["second"], case["seed"]))
    ctx.label(case["method"], "seeded" if case["seed"] is not None else "unseeded", "%d parameters" % len(case["shapes"]))
    ctx.nontrivial()


# C18 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c18_cases(draw, kind="short"):
    case = draw(any_sampler(max_steps=4, max_burn_in=3, dtype="float64", kind=kind).filter(lambda c: len(c["shapes"]) >= 2))
    if kind == "long":
        case["steps"] = min(case["steps"], 30)
    case["cost"] = draw(cost_specs().filter(lambda c: c["s"] > 0.1))
    k = len(case["shapes"])
    delay = st.sampled_from([0, 0, 2, 8] if kind != "long" else [0, 0, 1, 2])
    case["forward"] = [draw(delay) for _ in range(k)]
    case["backward"] = [draw(delay) for _ in range(k)]
    case["threads"] = draw(st.sampled_from([None, 2, 4]))
    return case


def delayed(tensor, forward, backward):
    """The tensor, read `forward` ms after the step started, with a gradient that takes `backward` ms."""
    def wait(ms):
        def sleep(_):
            time.sleep(ms / 1000.0)
            return np.int32(0)
        return sleep

    def slept(ms):
        return [tf.py_func(wait(ms), [tf.constant(0, tf.int32)], tf.int32, stateful=True)] if ms else []

    @tf.custom_gradient
    def identity(t):
        def grad(dy):
            with tf.control_dependencies(slept(backward)):
                return tf.identity(dy)
        return tf.identity(t), grad

    with tf.control_dependencies(slept(forward)):
        late = tensor.read_value() if isinstance(tensor, tf.Variable) else tf.identity(tensor)
    return identity(late)


class Pairs(object):
    """U(x) = q.x + b sum_(i < j) S_i S_j with S_i the sum of parameter i's elements: a parameter's own gradient does not
    depend on its value, so that only the other parameters' gradients and the cost are late when reading it is."""

    vector = False

    def __init__(self, case):
        sizes = [int(np.prod(shape, dtype=int)) for shape in case["shapes"]]
        self.owner = np.repeat(np.arange(len(sizes)), sizes)
        self.b, self.q = case["pairs"], np.resize(np.asarray(case["cost"]["q"], "float64"), len(self.owner))
        self.sizes = sizes

    def sums(self, x):
        return np.array([np.sum(x[self.owner == i]) for i in range(len(self.sizes))])

    def tensor(self, params):
        terms, offset = [], 0
        for i, (p, size) in enumerate(zip(params, self.sizes)):
            terms.append(tf.reduce_sum(self.q[offset:offset + size] * tf.reshape(p, [-1])))
            terms += [self.b * tf.reduce_sum(p) * tf.reduce_sum(other) for other in params[i + 1:]]
            offset += size
        return tf.add_n(terms)

    def value(self, x):
        sums = self.sums(x)
        return float(np.sum(self.q * x) + 0.5 * self.b * (np.sum(sums) ** 2 - np.sum(sums ** 2)))

    def magnitude(self, x):
        sums = self.sums(np.abs(x))
        return float(np.sum(np.abs(self.q * x)) + 0.5 * abs(self.b) * np.sum(sums) ** 2)

    def grad(self, x):
        sums = self.sums(x)
        return self.q + self.b * (np.sum(sums) - sums)[self.owner]

    def grad_magnitude(self, x):
        return np.abs(self.q) + abs(self.b) * np.sum(np.abs(x))


@st.composite
def late_cases(draw):
    case = draw(c18_cases().filter(lambda c: c["method"] != "SVGD"))
    case["pairs"] = draw(st.sampled_from([0.0, 0.5, 1.0, -0.7]))
    case["cost"] = draw(cost_specs())
    case["late"] = draw(st.lists(st.sampled_from([0, 0, 4, 12]), min_size=len(case["shapes"]), max_size=len(case["shapes"])))
    case["forward"] = case["late"]
    return case


def run_c18(case, ctx):
    with World(threads=case["threads"]) as world:
        params = world.make_params(case)
        cost = Pairs(case) if "pairs" in case else Cost(case["cost"], dimension(case), case["dtype"])
        if case["method"] == "SVGD":
            def fun(particle):
                return cost.tensor([delayed(particle, case["forward"][0], case["backward"][0])])
        else:
            def fun(ps):
                return cost.tensor([delayed(p, f, b) for p, f, b in zip(ps, case["forward"], case["backward"])])
        sampler = construct(case["method"], params, fun, world.session, case, Schedule(case["eps"]))
        world.initialize()
        follower = follow(world, params, case["method"], sampler, case, cost)
        done = 0
        for t in range(case["steps"]):
            if not follower.step(case["eps"][min(t, len(case["eps"]) - 1)]):
                break
            done += 1
    label(case, ctx, follower)
    waits = len(set(case["forward"])) > 1 or len(set(case["backward"])) > 1
    ctx.label("delays differ" if waits else "delays alike")
    ctx.nontrivial(done >= 2 and waits and not follower.unmapped)


@st.composite
def executor_cases(draw, kind="short"):
    case = draw(any_sampler(max_steps=5, max_burn_in=4, dtype="float64", kind=kind))
    case["cost"] = draw(cost_specs().filter(lambda c: c["s"] > 0.1))
    pick = st.tuples(st.integers(0, 2000), st.sampled_from(["any", "consumers", "reader", "reader"]), st.sampled_from([1, 3, 6])).map(list)
    case["picks"] = draw(st.lists(pick, min_size=1, max_size=20))
    case["threads"] = draw(st.sampled_from([None, 2, 4]))
    return case


def run_executor(case, ctx):
    """Any operation of the sampler's graph may start late."""
    with World(threads=case["threads"]) as world:
        params = world.make_params(case)
        cost = Cost(case["cost"], dimension(case), case["dtype"])
        sampler = construct(case["method"], params, cost_function(case, cost), world.session, case, Schedule(case["eps"]))
        delayed_operations = world.delay(case["picks"])
        world.initialize()
        follower = follow(world, params, case["method"], sampler, case, cost)
        done = 0
        for t in range(case["steps"]):
            if not follower.step(case["eps"][min(t, len(case["eps"]) - 1)]):
                break
            done += 1
    label(case, ctx, follower)
    ctx.label("%s operations delayed" % (len(delayed_operations) if len(delayed_operations) < 3 else "3 or more"))
    ctx.nontrivial(done >= 2 and bool(delayed_operations) and not follower.unmapped)


# C22 ------------------------------------------------------------------------------------------------------------------

TARGETS = {     # U(x), gradient, in units where gradient scale is 1
    "gaussian": (lambda x: 0.5 * x * x, lambda x: x),
    "quartic": (lambda x: 0.25 * x ** 4, lambda x: x ** 3),
    "logistic": (lambda x: 2 * np.logaddexp(0.5 * x, -0.5 * x), lambda x: np.tanh(0.5 * x)),
}


def target_tensor(kind, x):
    if kind == "gaussian":
        return 0.5 * tf.square(x)
    if kind == "quartic":
        return 0.25 * tf.square(tf.square(x))
    return 2 * (tf.abs(0.5 * x) + tf.log(1 + tf.exp(-tf.abs(x))))


def standard_quantiles(kind, n):
    """Standard deviation of the target and n values spread like it."""
    g = np.linspace(-60, 60, 240001)
    w = np.exp(-TARGETS[kind][0](g))
    w /= np.sum(w)
    return np.sqrt(np.sum(w * g * g)), np.interp((np.arange(n) + 0.5) / n, np.cumsum(w), g)


@st.composite
def c22_cases(draw):
    method = draw(st.sampled_from(METHODS))
    case = {"method": method, "dtype": draw(st.sampled_from(["float64", "float64", "float32"]))}
    case["target"] = draw(st.sampled_from(sorted(TARGETS)))
    case["mean"] = draw(st.sampled_from([0.0, 1.0, -2.0]))
    case["width"] = draw(st.sampled_from([0.7, 1.0, 1.6]))
    case["shapes"] = draw(st.sampled_from([[[300]], [[100, 3]], [[200], [10, 10]], [[298], [], [1]]]))
    case["seed"] = draw(maybe_seed)
    if method == "SGHMC":
        case["hyper"] = {"mdecay": draw(st.sampled_from([0.05, 0.1, 0.2]))}
    elif method == "SGLD":
        case["hyper"] = {"A": draw(st.sampled_from([1.0, 0.5, 2.0]))}
    else:
        case["hyper"] = {"mass": draw(st.sampled_from([1.0, 0.5, 2.0])), "speed_of_light": draw(st.sampled_from([1.0, 2.0, 1.5])),
                         "D": draw(st.sampled_from([1.0, 0.5])), "Bhat": draw(st.sampled_from([0.0, 0.5]))}
    if method != "RelativisticSGHMC":
        case["hyper"]["scale_grad"] = draw(st.sampled_from([1.0, 10.0, 100]))
        case["hyper"]["burn_in_steps"] = draw(st.sampled_from([0, 200]))
    return case


def run_c22(case, ctx):
    method, n = case["method"], 300
    scale = float(case["hyper"].get("scale_grad", 1.0))
    dtype = np.dtype(case["dtype"])
    standard, values = standard_quantiles(case["target"], n)
    sd = case["width"]          # of the target density exp(-scale * U)
    unit = sd / standard
    case = dict(case, start=list(case["mean"] + unit * values[np.arange(n) * 7 % n]))
    slope = 1.0 / (scale * sd)      # size of typical gradients
    burn_in = case["hyper"].get("burn_in_steps", 0)

    def cost(ps):
        x = tf.concat([tf.reshape(p, [-1]) for p in ps], axis=0)
        target = tf.reduce_sum(target_tensor(case["target"], (x - dtype.type(case["mean"])) / dtype.type(unit))) / dtype.type(scale)
        return target + tf.reduce_sum(tilt * x) if burn_in else target

    # during burn-in, random tilts of the target keep the running averages v_hat of squared gradients away from zero
    tilts = np.random.RandomState(1).choice([-3 * slope, 3 * slope], burn_in)
    # stepsizes small in relation to the preconditioned curvature of the target; the preconditioner is 1 / sqrt(v_hat)
    minv = 0.4 / slope if burn_in else 1.0
    curvature = 1.0 / (scale * sd ** 2)
    if method == "SGLD":
        eps, steps = 0.06 / (case["hyper"]["A"] * minv * curvature), 1600
    elif method == "SGHMC":
        # frequency eps*sqrt(minv*curvature) against friction mdecay; the noise must exceed eps_scaled^4
        eps = min(0.1 / np.sqrt(minv * curvature), np.sqrt(0.2 * case["hyper"]["mdecay"] * minv * scale))
        steps = 3000
    else:
        eps, steps = 0.06 * min(1.0, sd), 4000
    with World() as world:
        params = world.make_params(case)
        tilt = tf.placeholder(dtype, [])
        more = {"batch_generator": ({tilt: v} for v in itertools.chain(tilts, itertools.repeat(0.0)))} if burn_in else {}
        sampler = construct(method, params, cost, world.session, case, Schedule([eps]), **more)
        world.initialize()
        with sut("sampler steps"):
            for _ in range(burn_in + 200):
                next(sampler)
            total = total2 = 0.0
            for _ in range(steps):
                sample, _ = next(sampler)
                x = flatten(listed(sample, len(params))) - case["mean"]
                total, total2 = total + x, total2 + x * x
    mean, second = np.mean(total) / steps, np.mean(total2) / steps
    ctx.label(method, case["target"])
    # several thousand independent values: typical errors of the mean are 0.01 standard deviations (largest of 75 runs: 0.022);
    # those of the second moment come from the discretisation (seen: 0.86-1.02 for SGHMC, 0.99-1.06 for SGLD, 0.95-1.02)
    require(abs(mean) < 0.08 * sd, "the mean of the chain is off by %.3f (standard deviation %.3f)", mean, sd)
    lowest, highest = {"SGHMC": (0.78, 1.12), "SGLD": (0.9, 1.16), "RelativisticSGHMC": (0.87, 1.12)}[method]
    require(lowest < second / sd ** 2 < highest, "the chain has second moment %.4f around the mean, the target %.4f", second, sd ** 2)
    ctx.nontrivial()


@st.composite
def c22_svgd_cases(draw):
    n, d = draw(st.integers(8, 16)), draw(st.integers(1, 2))
    return {"n": n, "d": d, "mean": draw(st.sampled_from([0.0, 1.0, -2.0])), "width": draw(st.sampled_from([0.7, 1.0, 2.0])),
            "spread": draw(st.sampled_from([0.2, 1.0, 3.0])), "shift": draw(st.sampled_from([-1.0, 0.0, 2.0])), "salt": draw(st.integers(0, 1000))}


def run_c22_svgd(case, ctx):
    n, d, s = case["n"], case["d"], case["width"]
    rng = np.random.RandomState(case["salt"])
    start = case["mean"] + s * (case["shift"] + case["spread"] * rng.normal(size=(n, d)))
    with World() as world:
        params = world.make_params({"dtype": "float64", "shapes": [[d]] * n, "start": list(start.reshape(-1))})
        cost = lambda p: 0.5 * tf.reduce_sum(tf.square((p - case["mean"]) / s))
        sampler = construct("SVGD", params, cost, world.session, {"dtype": "float64"}, Schedule([0.05 * s] * 300 + [0.01 * s]))
        world.initialize()
        with sut("sampler steps"):
            for _ in range(600):
                sample, _ = next(sampler)
    x = (np.array(sample) - case["mean"]) / s
    require(np.all(np.isfinite(x)), "particles are not finite: %s", x)
    require(np.max(np.abs(x.mean(axis=0))) < 0.15, "the particles' mean is off by %s standard deviations", x.mean(axis=0))
    spread = np.sqrt(np.mean((x - x.mean(axis=0)) ** 2))
    require(0.55 < spread < 1.2, "the particles' spread is %.3f standard deviations of the target", spread)
    ctx.label("SVGD d=%d" % d)
    ctx.nontrivial()


# C23 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c23_cases(draw, large=False):
    shapes = [[[20000]], [[100, 200]], [[], [19999]], [[8000], [40, 100], [16, 25, 20]]] if large else \
        [[[400]], [[150], [50, 5]], [[], [399]], [[20, 20], [1], [99]]]
    case = {"shapes": draw(st.sampled_from(shapes)), "dtype": "float64"}
    case["start"] = [0.0] * sum(int(np.prod(s, dtype=int)) for s in case["shapes"])
    grid = st.one_of(st.sampled_from([0.5, 1.0, 2.0, 0.2, 5.0, 3.0]), st.floats(0.2, 5.0).map(lambda v: round(v, 3)))
    case["hyper"] = {"mass": draw(grid), "speed_of_light": draw(grid)}
    if draw(st.integers(0, 4)) == 0:
        case["hyper"].pop(draw(st.sampled_from(["mass", "speed_of_light"])))
    case["seed"] = draw(st.one_of(st.none(), seeds32, seeds32))
    case["reseed"] = draw(st.integers(0, 1000))
    if case["seed"] is not None:
        case["other_seed"] = draw(other_seeds(case["seed"]))
    return case


def run_c23(case, ctx):
    m, c = [case["hyper"].get(k, 1.0) for k in ("mass", "speed_of_light")]
    np.random.seed(case["reseed"])
    p, error = initial_momenta(case)
    g = np.linspace(-60 / c - 10 * np.sqrt(m), 60 / c + 10 * np.sqrt(m), 200001)
    w = np.exp(-m * c * c * (np.sqrt(g * g / (m * m * c * c) + 1) - 1))
    cdf = np.cumsum(w) / np.sum(w)
    z = stats.norm.ppf(np.clip(np.interp(p, g, cdf), 1e-12, 1 - 1e-12))
    pvalue = stats.kstest(np.interp(p, g, cdf), "uniform").pvalue
    require(pvalue > 1e-9, "%d initial momenta for mass %s and speed of light %s do not follow the density: KS test has p = %g "
            "(mean %.3f, standard deviation %.3f instead of %.3f)", len(p), m, c, pvalue, p.mean(), p.std(), np.sqrt(np.sum(w * g * g) / np.sum(w)))
    for tail in (0.1, 0.01, 0.001, 0.0001):
        for side, count in (("lower", np.sum(np.interp(p, g, cdf) < tail)), ("upper", np.sum(np.interp(p, g, cdf) > 1 - tail))):
            pvalue = stats.binomtest(int(count), len(p), tail).pvalue
            require(pvalue > 1e-9, "%d of %d initial momenta for mass %s and speed of light %s lie in the %s tail of probability %s (p = %g)",
                    count, len(p), m, c, side, tail, pvalue)
    for lag in range(1, 8):
        r = np.mean(z[lag:] * z[:-lag]) * np.sqrt(len(z) - lag)
        require(abs(r) < LIMIT, "initial momenta %d elements apart are correlated (%.1f standard errors)", lag, r)
    require(len(np.unique(p)) > 0.9 * len(p), "initial momenta repeat: %d different ones of %d", len(np.unique(p)), len(p))
    if case["seed"] is not None:
        np.random.seed(case["reseed"] + 1)
        again, _ = initial_momenta(case)
        require(np.array_equal(p, again), "the initial momenta of seed %d are not reproducible", case["seed"])
        other, _ = initial_momenta(dict(case, seed=case["other_seed"]))
        require(not np.array_equal(p, other), "seeds %d and %d give the same momenta", case["seed"], case["other_seed"])
    ctx.label("seeded" if case["seed"] is not None else "unseeded")
    ctx.nontrivial()


CHECKS = {
    "C16": lambda: ([Part("chains", c16_cases(), run_c16, 100, 2000), Part("large", c16_cases(kind="large"), run_c16, 16, 200),
                     Part("long", c16_cases(kind="long"), run_c16, 12, 150), Part("processes", process_cases(), run_processes, 12, 100, portion=2)],
                    "sampler x seed x disturbances (numpy and random state, threads, neighbouring samplers); non-trivial: a finite chain of two or more steps",
                    ["no graph-level seed is set (it is part of the graph)"]),
    "C17": lambda: ([Part("innovations", c17_cases(), run_c17, 48, 600), Part("wide", wide_cases(), run_wide, 18, 200),
                     Part("huge", huge_cases(), run_huge, 24, 300)],
                    "sampler x hyperparameters x shapes x seeds, 500 steps each on a flat cost; every case counts",
                    ["statistical: a deviation counts from 7 standard errors on"]),
    "C18": lambda: ([Part("delays", c18_cases(), run_c18, 90, 1500), Part("late reads", late_cases(), run_c18, 60, 900), Part("large", c18_cases(kind="large"), run_c18, 24, 300),
                     Part("long", c18_cases(kind="long"), run_c18, 12, 150), Part("executor", executor_cases(), run_executor, 200, 4000),
                     Part("executor, large", executor_cases(kind="large"), run_executor, 30, 500)],
                    "samplers with two or more parameters x delays in value and gradient of the cost; non-trivial: two steps compared with the "
                    "model and delays that differ between parameters", ["schedules are those of TensorFlow's executor under the generated delays"]),
    "C22": lambda: ([Part("moments", c22_cases(), run_c22, 36, 300), Part("particles", c22_svgd_cases(), run_c22_svgd, 16, 150)],
                    "target x sampler x hyperparameters, 300 independent dimensions; every case counts",
                    ["statistical, with bounds of 8% of a standard deviation for means and 10-22% for variances"]),
    "C23": lambda: ([Part("momenta", c23_cases(), run_c23, 80, 1000), Part("large", c23_cases(large=True), run_c23, 36, 400)],
                    "mass and speed of light in [0.2, 5] x shapes x seeds, 400 momenta each; every case counts",
                    ["statistical: KS test with p > 1e-9"]),
}
