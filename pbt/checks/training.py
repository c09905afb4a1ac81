"""C41-C43: what users put together: networks and samplers, data of any representation, minibatches and samplers."""
import numpy as np
from hypothesis import strategies as st

from pbt.checks.bnn import ChainSchedule, Trained, forward, label, settings_
from pbt.core import Part, require, sut
from pbt.drive import RTOL, compare, construct, reference
from pbt.obs import Schedule, World, flatten, listed, pick_noise
from pbt.shims import tf
from pbt.util import mod, seeds32


# C41 ------------------------------------------------------------------------------------------------------------------

class NoiseSchedule(ChainSchedule):
    """Also keeps the random numbers drawn for each step."""

    session = None

    def __init__(self, values):
        super().__init__(values)
        self.drawn, self.given = [], []

    def __next__(self):
        value = super().__next__()
        self.given.append(value)
        return value

    def update(self, *args, **kwargs):
        super().update(*args, **kwargs)
        merged = {}
        for noise in self.session.recording:
            merged.update(noise)
        self.drawn.append(merged)
        del self.session.recording[:]


def terms(case, flat, shapes, x, y, n):
    """Summands of the negative log posterior per datapoint, for complex weights as well."""
    weights, offset = [], 0
    for shape in shapes:
        size = int(np.prod(shape, dtype=int))
        weights.append(flat[offset:offset + size].reshape(shape))
        offset += size
    out = forward(case["net"], x, weights, np)
    mean, log_var = out[:, 0], out[:, 1]
    b = len(x)
    return np.concatenate([
        (y - mean) ** 2 * 0.5 / (np.exp(log_var) + 1e-16) / b, 0.5 * log_var / b,
        (log_var - np.log(1e-6)) ** 2 / (2 * 0.01) / len(log_var) / n, 0.5 * flat ** 2 / len(flat) / n])


def gradient(case, flat, shapes, x, y, n):
    """Gradient and the size of its summands, by complex steps."""
    grad, magnitude = np.zeros(len(flat)), np.zeros(len(flat))
    for k in range(len(flat)):
        moved = flat.astype(complex)
        moved[k] += 1e-30j
        parts = np.imag(terms(case, moved, shapes, x, y, n)) / 1e-30
        grad[k], magnitude[k] = np.sum(parts), np.sum(np.abs(parts))
    return grad, magnitude


@st.composite
def c41_cases(draw, size="small"):
    case = draw(settings_(size=size))
    case["mdecay"] = draw(st.sampled_from([None, 0.05, 0.2, 0.01, 1.0])) if case["method"] == "SGHMC" else None
    case["A"] = draw(st.sampled_from([None, 1.0, 0.5, 2.0])) if case["method"] == "SGLD" else None
    case["dtype"] = draw(st.sampled_from(["float64"] * 4 + ["float32"]))
    return case


def run_c41(case, ctx):
    with World() as world:
        schedule = NoiseSchedule(case["eps"])
        schedule.session = world.session
        world.session.recording = []
        extra = {} if case["A"] is None else {"A": case["A"]}
        try:
            t = Trained(case, world, schedule=schedule, extra=extra)
        finally:
            world.session.recording = None
        samples, costs = t.chain
        require(costs and len(schedule.given) == len(costs) == len(t.batches.batches),
                "training drew %d minibatches, asked the given schedule for %d stepsizes and told it about %d steps", len(t.batches.batches), len(schedule.given), len(costs))
        shapes = [tuple(v.shape.as_list()) for v in t.weights()]
        hyper = {"burn_in_steps": case["burn_in_steps"], "scale_grad": case["n"]}
        if case["mdecay"] is not None:
            hyper["mdecay"] = case["mdecay"]
        hyper.update(extra)
        model = reference(case["method"], sum(int(np.prod(s, dtype=int)) for s in shapes), hyper)
        checked, wrong_noise = 0, False
        for k in range(len(costs)):
            before, new = flatten(samples[k]), flatten(samples[k + 1])
            batch = t.batches.batches[k]
            bx, by = [np.asarray(batch[p], "float64") for p in t.batches.placeholders]
            z = pick_noise(world, t.weights(), schedule.drawn[k])
            if z is None:
                wrong_noise = True
                break
            with np.errstate(all="ignore"):
                grad, magnitude = gradient(case, before, shapes, bx, by.reshape(-1), case["n"])
            if not np.all(np.isfinite(grad)) or np.max(magnitude) > 1e7 or np.max(np.abs(before)) > 1e3:
                break
            delta, tolerance = model.step(grad, magnitude, schedule.given[k], z, RTOL[case["dtype"]])
            compare(before, new, delta, tolerance, case["dtype"], "training step %d of %d data points" % (k + 1, case["n"]),
                    eps=schedule.given[k], grad=grad, z=z)
            checked += 1
    label(case, ctx)
    ctx.label("unmapped" if wrong_noise else "across burn-in" if case["burn_in_steps"] < checked else "within burn-in")
    ctx.nontrivial(checked >= 2)


# C42 ------------------------------------------------------------------------------------------------------------------

FORMS = ["int64", "int32", "float32", ">f8", "fortran", "strided", "reversed", "transposed", "read-only", "subclass", "offset"]


class Table(np.ndarray):
    """As of packages that build upon numpy."""


def represented(a, form):
    """The values of the array, represented in another way."""
    if form in ("int64", "int32", "float32", ">f8"):
        result = a.astype(form)
    elif form == "fortran":
        result = np.asfortranarray(a)
    elif form == "strided":
        wide = np.full([3 * k for k in a.shape], 99.0)
        result = wide[tuple(slice(1, None, 3) for _ in a.shape)]
        result[...] = a
    elif form == "reversed":
        result = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]
    elif form == "transposed":
        result = a.T.copy().T
    elif form == "read-only":
        result = a.copy()
        result.flags.writeable = False
    elif form == "subclass":
        result = a.copy().view(Table)
    elif form == "offset":      # part of a larger array
        result = np.full([k + 2 for k in a.shape], 55.0)[tuple(slice(1, -1) for _ in a.shape)]
        result[...] = a
    assert result.shape == a.shape and np.array_equal(result, a)
    return result


def memory(*arrays):
    """Bytes of the arrays and of what they are parts of."""
    return [a.tobytes() for array in arrays for a in (array, array if array.base is None else np.asarray(array.base))]


@st.composite
def forms(draw):
    return {"x_form": draw(st.sampled_from(FORMS)), "y_form": draw(st.sampled_from(FORMS)), "again": draw(st.sampled_from(FORMS))}


def whole_numbers(case, n, d):
    rng = np.random.RandomState(case["data_seed"])
    x = rng.randint(-20, 20, (n, d)).astype("float64")
    y = rng.randint(-20, 20, n).astype("float64")
    x[0], x[1], y[0], y[1] = -21, 21, -21, 21
    return x, y


@st.composite
def c42_stream_cases(draw):
    case = draw(forms())
    case.update(n=draw(st.integers(2, 60)), d=draw(st.integers(1, 5)), data_seed=draw(st.integers(0, 10 ** 6)), batch_size=draw(st.integers(1, 40)),
                shuffled=draw(st.booleans()), seed=draw(seeds32))
    return case


def run_c42_streams(case, ctx):
    data = mod("pysgmcmc.data_batches")
    function = data.generate_shuffled_batches if case["shuffled"] else data.generate_batches
    x, y = whole_numbers(case, case["n"], case["d"])
    drawn = []
    for a, b in ((x, y), (represented(x, case["x_form"]), represented(y, case["y_form"]))):
        before = memory(a, b)
        with sut("drawing minibatches of " + case["x_form"]):
            stream = function(a, b, "X", "Y", batch_size=case["batch_size"], seed=case["seed"])
            drawn.append([{k: np.array(v) for k, v in next(stream).items()} for _ in range(6)])
        require(memory(a, b) == before, "drawing minibatches modified %s data", case["x_form"])
    for k, (p, q) in enumerate(zip(*drawn)):
        for name in ("X", "Y"):
            require(np.shape(p[name]) == np.shape(q[name]) and np.array_equal(p[name], q[name]), "minibatch %d of %s data with %s labels has %s %s instead of %s",
                    k + 1, case["x_form"], case["y_form"], name, q[name].tolist(), p[name].tolist())
    ctx.label(case["x_form"])
    ctx.nontrivial()


def run_c42_tables(case, ctx):
    """Normalisation and the collection of data by models."""
    base = mod("pysgmcmc.models.base_model")
    x, y = whole_numbers(case, case["n"], case["d"])
    other = represented(x, case["x_form"]), represented(y, case["y_form"])
    before = memory(*other)
    tolerance = 1e-4 if "float32" in (case["x_form"], case["y_form"], case["again"]) else 1e-12
    for normalize, back in ((base.zero_one_normalization, base.zero_one_unnormalization),
                            (base.zero_mean_unit_var_normalization, base.zero_mean_unit_var_unnormalization)):
        for a, b in zip((x, y), other):
            with sut("normalising"):
                want, got = normalize(a), normalize(b)
            for p, q in zip(want, got):
                require(np.shape(p) == np.shape(q) and np.all(np.abs(p - q) <= tolerance * (1 + np.abs(p))), "normalising %s, %s data gives %s instead of %s",
                        case["x_form"], case["y_form"], q, p)
            with sut("un-normalising"):
                restored = back(*got)
            require(np.all(np.abs(restored - a) <= 30 * tolerance), "%s, %s data becomes %s by normalising and un-normalising", case["x_form"], case["y_form"], restored)

    class Model(base.BaseModel):
        def train(self, X, y):
            self.X, self.y = X, y

        def predict(self, X_test):
            return X_test
    with sut("updating a model"):
        model = Model()
        model.train(*other)
        model.update(represented(x, case["again"])[::-1], represented(y, case["again"])[::-1] - 1)
        point, value = model.get_incumbent()
    require(np.array_equal(model.X, np.concatenate([x, x[::-1]])) and np.array_equal(model.y, np.concatenate([y, y[::-1] - 1])), "the data became %s, %s",
            model.X, model.y)
    require(value == -22.0 and np.array_equal(point, x[y == -21.0][-1]) if np.sum(y == -21.0) == 1 else True, "the best point is %s with %s", point, value)
    require(memory(*other) == before, "%s, %s data was modified", case["x_form"], case["y_form"])
    ctx.label(case["x_form"])
    ctx.nontrivial()


@st.composite
def c42_training_cases(draw):
    case = draw(settings_(max_burn_in=6).filter(lambda c: c["n"] >= 2))
    case.update(draw(forms()))
    case["seed"], case["dtype"] = draw(seeds32), "float64"
    case["n_iters"] = case["burn_in_steps"] + case["sample_steps"] * (case["n_nets"] + 1) + 1
    return case


def run_c42_training(case, ctx):
    case = dict(case)
    x, y = whole_numbers(case, case["n"], case["d"])
    if not case["normalize_input"]:
        x /= 16
    if not case["normalize_output"]:
        y /= 16
    # integers need whole numbers; statistics of float32 data are rounded to float32
    avoid = ("float32",) if case["normalize_input"] or case["normalize_output"] else ()
    avoid += () if case["normalize_input"] and case["normalize_output"] else ("int32", "int64")
    x_form, y_form, again = [f if f not in avoid else "strided" for f in (case["x_form"], case["y_form"], case["again"])]
    test = np.concatenate([x[:3], -x[:2]])
    results = []
    for data, points in (((x, y), test), ((represented(x, x_form), represented(y, y_form)), represented(test, again))):
        with World() as world:
            before = memory(*data, points)
            t = Trained(case, world, data)
            networks = [[np.array(w) for w in network] for network in t.networks()]
            with sut("predict"):
                mean, variance = t.bnn.predict(points)
            require(memory(*data, points) == before, "training or prediction modified the data")
            results.append((networks, np.asarray(mean), np.asarray(variance)))
    (networks, mean, variance), (networks2, mean2, variance2) = results
    if not all(np.all(np.isfinite(w)) and np.max(np.abs(w), initial=0) < 1e3 for network in networks for w in network):
        ctx.label("diverged")
        return
    tolerance = 1e-7
    require(len(networks) == len(networks2), "%d networks are collected from %s, %s data instead of %d", len(networks2), x_form, y_form, len(networks))
    for k, (p, q) in enumerate(zip(networks, networks2)):
        for v, w in zip(p, q):
            require(np.all(np.abs(v - w) <= tolerance * (1 + np.abs(v))), "network %d becomes %s instead of %s by training on %s, %s data", k, w, v, x_form, y_form)
    spread = np.std(y)
    require(mean.shape == mean2.shape and np.all(np.abs(mean - mean2) <= 10 * tolerance * (np.abs(mean) + spread)), "predictive means for %s test points are %s instead of %s", again, mean2, mean)
    require(variance.shape == variance2.shape and np.all(np.abs(variance - variance2) <= 10 * tolerance * (variance + spread ** 2)), "predictive variances for %s test points are %s instead of %s", again, variance2, variance)
    label(case, ctx)
    ctx.label(x_form)
    ctx.nontrivial(len(networks) > 0)


# C43 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c43_cases(draw):
    case = {"method": draw(st.sampled_from(["SGHMC", "SGLD"])), "n": draw(st.integers(60, 400)), "shuffled": draw(st.booleans()),
            "noise": draw(st.sampled_from([0.5, 1.0, 3.0])), "prior": draw(st.sampled_from([None, 1.0, 10.0])), "salt": draw(st.integers(0, 10 ** 6)),
            "burn_in_steps": draw(st.sampled_from([0, 200])), "seed": draw(st.one_of(st.none(), seeds32)),
            "start": draw(st.sampled_from([0.0, 3.0, -3.0])), "shapes": draw(st.sampled_from([[[200]], [[100], [10, 10]], [[197], [], [2, 1]]]))}
    case["batch_size"] = draw(st.integers(case["n"] // 40 + 1, case["n"] // 12))
    if case["method"] == "SGHMC":
        case["hyper"] = {"mdecay": draw(st.sampled_from([0.05, 0.1, 0.2]))}
    else:
        case["hyper"] = {"A": draw(st.sampled_from([1.0, 0.5, 2.0]))}
    return case


def run_c43(case, ctx):
    """Posterior of the means of normally distributed columns of data."""
    n, b, s, k = case["n"], case["batch_size"], case["noise"], 200
    rng = np.random.RandomState(case["salt"])
    truth = rng.normal(size=k)
    y = truth + s * rng.normal(size=(n, k))
    labels = y[:, 0]
    weight = 0.0 if case["prior"] is None else 1.0 / case["prior"] ** 2
    precision = n / s ** 2 + weight
    mean, sd = y.sum(axis=0) / s ** 2 / precision, precision ** -0.5
    curvature = precision / n           # of the cost per datapoint
    # gradients scatter with variance `scatter`; it adds to the injected noise, in proportion to the stepsize
    scatter = (1.0 / b - 1.0 / n) / s ** 2
    minv = 1.0 / np.sqrt(scatter + curvature ** 2 * sd ** 2) if case["burn_in_steps"] else 1.0
    extra = 0.06
    if case["method"] == "SGHMC":
        m = case["hyper"]["mdecay"]
        eps = min(np.sqrt(extra * 2 * m / (minv * n * scatter)), 0.3 * m / np.sqrt(minv * curvature), np.sqrt(0.2 * m * minv * n))
        rate = eps ** 2 * minv * curvature / m
    else:
        eps = min(extra * 2 / (minv * case["hyper"]["A"] * n * scatter), 0.06 / (case["hyper"]["A"] * minv * curvature))
        rate = eps * minv * case["hyper"]["A"] * curvature
    with World() as world:
        params = world.make_params(dict(case, dtype="float64", start=list(mean + case["start"] * sd)))
        x_ph, y_ph = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
        data = mod("pysgmcmc.data_batches")
        batches = (data.generate_shuffled_batches if case["shuffled"] else data.generate_batches)(y, labels, x_ph, y_ph, batch_size=b, seed=case["seed"])

        def cost(ps):
            theta = tf.concat([tf.reshape(p, [-1]) for p in ps], axis=0)
            return (tf.reduce_sum(tf.square(x_ph - theta)) / (2 * s ** 2) / tf.cast(tf.shape(x_ph)[0], tf.float64)
                    + weight / n * tf.reduce_sum(tf.square(theta)) / 2)
        hyper = dict(case["hyper"], scale_grad=n, burn_in_steps=case["burn_in_steps"])
        sampler = construct(case["method"], params, cost, world.session, dict(case, dtype="float64", hyper=hyper), Schedule([eps]), batch_generator=batches)
        world.initialize()
        steps = int(min(12 / rate, 12000))
        total = total2 = 0.0
        with sut("sampler steps"):
            for _ in range(case["burn_in_steps"] + int(min(6 / rate, 8000))):
                next(sampler)
            for _ in range(steps):
                sample, _ = next(sampler)
                z = (flatten(listed(sample, len(params))) - mean) / sd
                total, total2 = total + z, total2 + z * z
    off, second = np.mean(total) / steps, np.mean(total2) / steps
    # 200 columns and several autocorrelation times of each: typical errors of the mean are 0.03; the scatter of the gradients adds
    # up to 6% to the second moment, windows of neighbouring points and the discretisation as much again (seen: 1.01 - 1.15)
    require(abs(off) < 0.2, "with minibatches of %d of %d points, the mean of the chain is off by %.3f posterior standard deviations", b, n, off)
    require(0.85 < second < 1.35, "with minibatches of %d of %d points, the chain has %.3f times the posterior's variance", b, n, second)
    ctx.label(case["method"], "shuffled" if case["shuffled"] else "in order", "adapted" if case["burn_in_steps"] else "not adapted")
    ctx.nontrivial()


CHECKS = {
    "C41": lambda: ([Part("training", c41_cases(), run_c41, 60, 1200), Part("large", c41_cases("large"), run_c41, 18, 300),
                     Part("long", c41_cases("long"), run_c41, 6, 60, portion=1)],
                    "networks x data x sampler x settings; non-trivial: at least two steps compared with the sampler's equations",
                    ["noise is observed by fetching the random ops of a step together with it"]),
    "C42": lambda: ([Part("streams", c42_stream_cases(), run_c42_streams, 300, 6000), Part("tables", c42_stream_cases(), run_c42_tables, 300, 6000),
                     Part("training", c42_training_cases(), run_c42_training, 60, 1000)],
                    "data x its representation; non-trivial: all, for training at least one network", []),
    "C43": lambda: ([Part("posterior", c43_cases(), run_c43, 30, 300, portion=3)],
                    "data x batch sizes x sampler x settings; every case is a chain of 1200 to 12000 steps for 200 independent columns of data, all non-trivial",
                    ["statistical: limits are seven standard errors away from what correct chains show"]),
}
