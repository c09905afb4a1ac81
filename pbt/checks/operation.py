"""C44-C46: what it is like to run samplers and networks: resources, several at a time, reports."""
import gc
import logging
import re
import sys
import threading
import weakref

import numpy as np
from hypothesis import strategies as st

from pbt.checks.bnn import Net, Trained, finite, label as bnn_label, settings_
from pbt.checks.protocol import any_sampler, cost_function, dimension, label
from pbt.core import HarnessError, Part, Violation, require, sut
from pbt.drive import construct
from pbt.obs import Cost, Schedule, World, cost_specs, flatten, listed
from pbt.shims import tf
from pbt.util import mod, seeds32


# C44 ------------------------------------------------------------------------------------------------------------------

class Forgetful(object):
    """A stepsize schedule that keeps nothing."""

    initial_value = 0.01

    def __iter__(self):
        return self

    def __next__(self):
        return 0.01

    def update(self, *args, **kwargs):
        pass


@st.composite
def c44_cases(draw):
    case = draw(any_sampler(max_steps=7, max_burn_in=6))
    case["cost"] = draw(cost_specs())
    case["seed"] = draw(st.one_of(st.none(), seeds32))
    case["data"] = draw(st.booleans())
    case["steps"] = draw(st.integers(12, 40))
    case["feeds"] = draw(st.booleans())
    case["by_trace"] = draw(st.integers(0, 3)) == 0
    return case


def alive(references):
    return [k for k, r in enumerate(references) if r() is not None]


def run_c44(case, ctx):
    with World() as world:
        dtype = np.dtype(case["dtype"])
        params = world.make_params(case)
        cost = Cost(case["cost"], dimension(case), case["dtype"])
        plain, more, batches = cost_function(case, cost), {}, []
        fun, extra = plain, None
        if case["data"]:
            x_ph = tf.placeholder(dtype)

            def generate():
                while True:
                    x = np.arange(4).astype(dtype)
                    batches.append(weakref.ref(x))
                    yield {x_ph: x}
            fun, more["batch_generator"] = lambda ps: plain(ps) * (1 + tf.reduce_mean(x_ph) / 10), generate()
        if case["feeds"]:
            extra = tf.placeholder_with_default(np.zeros((), dtype), [])
            inner = fun
            fun = lambda ps: inner(ps) + extra
        sampler = construct(case["method"], params, fun, world.session, case, Forgetful(), **more)
        world.initialize()
        samples, sizes = [], []
        burn_in = int(case.get("hyper", {}).get("burn_in_steps", 0))
        size = lambda: len(world.graph.get_operations())

        def keep(arrays):
            samples.extend(weakref.ref(a) for a in arrays if isinstance(a, np.ndarray))

        for k in range(case["steps"]):
            with sut("sampler step"):
                if case["feeds"]:
                    result = sampler.__next__({extra: np.zeros((), dtype)})
                else:
                    result = next(sampler)
            keep(listed(result[0], len(params)))
            keep([result[1]])
            del result
            sizes.append(size())
        if case["by_trace"]:
            trace = mod("pysgmcmc.diagnostics.sample_chains").PYSGMCMCTrace
            with sut("recording a trace"):
                trace.from_sampler(0, sampler, n_samples=5, keep_every=2)
            sizes.append(size())
        # the first steps of both phases may prepare something
        for first, last in ((2, burn_in - 1), (max(burn_in, 0) + 2, len(sizes) - 1)):
            if first < last < len(sizes):
                require(sizes[first] == sizes[last], "from step %d to step %d, the graph grows from %d to %d operations", first + 1, last + 1, sizes[first], sizes[last])
        gc.collect()
        per_step = max(1, len(samples) // case["steps"])
        old = [k for k in alive(samples) if k < len(samples) - 2 * per_step]
        require(len(old) <= 2 * per_step, "%d arrays of earlier samples are kept after %d steps with %d arrays each", len(old), case["steps"], per_step)
        require(len([k for k in alive(batches) if k < len(batches) - 2]) <= 2, "%d of %d minibatches are kept", len(alive(batches)), len(batches))
    label(case, ctx)
    ctx.nontrivial(len(sizes) > burn_in + 4)


@st.composite
def c44_network_cases(draw):
    case = draw(settings_(max_burn_in=6))
    case["net"] = draw(st.sampled_from([case["net"], case["net"], "default"]))
    case["tests"] = draw(st.lists(st.tuples(st.integers(1, 30), st.booleans()).map(list), min_size=2, max_size=8))
    case["more"] = draw(st.integers(5, 30))
    return case


class Forgetting(object):
    """Minibatches that can be told to have been dropped."""

    def __init__(self):
        self.references = []

    def __call__(self, *args, **kwargs):
        for batch in mod("pysgmcmc.data_batches").generate_shuffled_batches(*args, **kwargs):
            batch = {k: np.array(v) for k, v in batch.items()}
            self.references += [weakref.ref(v) for v in batch.values()]
            yield batch


class Noting(Forgetful):
    """Notes the number of operations in the graph, and the samples that are still there."""

    def __init__(self, eps, graph):
        self.initial_value = self.eps = eps
        self.graph, self.sizes, self.references = graph, [], []

    def __next__(self):
        self.sizes.append(len(self.graph.get_operations()))
        return self.eps

    def update(self, *args, **kwargs):
        for a in list(args) + list(kwargs.values()):
            for v in a if isinstance(a, (list, tuple)) else [a]:
                if isinstance(v, np.ndarray):
                    self.references.append(weakref.ref(v))
                    self.per_step = len(a) if isinstance(a, (list, tuple)) else 1


def run_c44_network(case, ctx):
    case = dict(case, n_iters=case["burn_in_steps"] + case["sample_steps"] * (case["n_nets"] + 1) + 1 + case["more"])
    with World() as world:
        schedule = Noting(case["eps"][0], world.graph)
        batches = Forgetting()
        t = Trained(case, world, train=False, schedule=schedule)
        t.bnn.batch_generator = batches
        with sut("train"):
            t.bnn.train(t.x, t.y)
        steps = len(schedule.sizes)
        require(steps >= 1, "training made no step")
        # what is logged, and what happens after burn-in, may be prepared once
        for first, last in ((1, min(case["burn_in_steps"], steps) - 1), (case["burn_in_steps"] + case["sample_steps"] + 1, steps - 1)):
            if first < last < steps:
                require(schedule.sizes[first] == schedule.sizes[last], "from step %d to step %d of training, the graph grows from %d to %d operations", first + 1, last + 1,
                        schedule.sizes[first], schedule.sizes[last])
        gc.collect()
        weights = len(t.weights())
        left = len(alive(schedule.references))
        require(left <= (case["n_nets"] + 3) * (weights + 1), "%d arrays of samples are kept after training of %d networks of %d weights in %d steps", left, case["n_nets"], weights, steps)
        left = len(alive(batches.references))
        require(left <= 8, "%d of %d arrays of minibatches are kept after training", left, len(batches.references))
        rng = np.random.RandomState(case["data_seed"])
        sizes = []
        for n, individual in case["tests"] + case["tests"]:
            points = rng.normal(size=(n, case["d"]))
            reference = weakref.ref(points)
            with sut("predict"):
                result = t.bnn.predict(points, return_individual_predictions=individual)
            kept = [weakref.ref(np.asarray(r)) for r in result]
            del points, result
            sizes.append(len(world.graph.get_operations()))
        gc.collect()
        require(sizes[-1] == sizes[len(case["tests"])], "predicting over and over, the graph grows from %d to %d operations", sizes[len(case["tests"])], sizes[-1])
        del reference, kept
    bnn_label(case, ctx)
    ctx.nontrivial(steps > case["burn_in_steps"] + case["sample_steps"] + 2)


# C45 ------------------------------------------------------------------------------------------------------------------

class Turns(object):
    """Lets one of several threads at a time go on, in the order of a case; every thread calls `wait` again and again."""

    def __init__(self, n, order):
        self.n, self.order, self.position = n, order, 0
        self.condition = threading.Condition()
        self.waiting, self.finished, self.turn = set(), set(), None

    def choose(self):
        """With the lock held, and nobody running."""
        if self.turn is None and len(self.waiting) + len(self.finished) == self.n and self.waiting:
            candidates = sorted(self.waiting)
            self.turn = candidates[self.order[self.position % len(self.order)] % len(candidates)]
            self.position += 1
            self.condition.notify_all()

    def wait(self, index):
        with self.condition:
            if self.turn == index:
                self.turn = None
            self.waiting.add(index)
            self.choose()
            if not self.condition.wait_for(lambda: self.turn == index, timeout=120):
                raise HarnessError("a thread was stuck")
            self.waiting.discard(index)

    def finish(self, index):
        with self.condition:
            if self.turn == index:
                self.turn = None
            self.waiting.discard(index)
            self.finished.add(index)
            self.choose()


class TurnSchedule(Schedule):
    """Waits for its turn before it gives a value and when it is told about a step."""

    pause = staticmethod(lambda: None)

    def __next__(self):
        self.pause()
        value = super().__next__()
        self.pause()
        return value

    def update(self, *args, **kwargs):
        self.pause()
        sample, cost = list(args) + list(kwargs.values())
        sample = list(sample) if isinstance(sample, list) else [sample]
        self.updates.append(([np.array(s) for s in sample], float(np.mean(cost))))
        self.pause()


def chain_job(case, pause):
    """A sampler, built and run; yields control in between."""
    with World(threads=1) as world:
        pause()
        dtype = np.dtype(case["dtype"])
        params = world.make_params(case)
        cost = Cost(case["cost"], dimension(case), case["dtype"])
        plain, more = cost_function(case, cost), {}
        fun = plain
        if case["data"]:
            x_ph, y_ph = tf.placeholder(dtype), tf.placeholder(dtype)
            x = np.arange(24.0).reshape(-1, 2).astype(dtype)
            module = mod("pysgmcmc.data_batches")
            inner = (module.generate_shuffled_batches if case["data"] == "shuffled" else module.generate_batches)(x, x[:, 0], x_ph, y_ph, batch_size=5, seed=case["seed"])

            def generate():
                for batch in inner:
                    pause()
                    yield batch
            fun = lambda ps: plain(ps) * (1 + tf.reduce_mean(x_ph) / 10 + tf.reduce_mean(y_ph) / 20)
            more["batch_generator"] = generate()
        schedule = TurnSchedule(case["eps"])
        schedule.pause = pause
        final = fun

        def paused(ps):
            pause()
            value = final(ps)
            pause()
            return value
        sampler = construct(case["method"], params, paused, world.session, case, schedule, **more)
        pause()
        world.initialize()
        chain = []
        for _ in range(case["steps"]):
            pause()
            with sut("sampler step"):
                sample, cost_value = next(sampler)
            chain.append((flatten(listed(sample, len(params))), np.mean(cost_value)))
        return chain


class PausingNet(Net):
    def __init__(self, kind, pause):
        super().__init__(kind)
        self.pause = pause

    def __call__(self, *args, **kwargs):
        self.pause()
        output = super().__call__(*args, **kwargs)
        self.pause()
        return output


def network_job(case, pause):
    """A network, trained and used."""
    with World(threads=1) as world:
        pause()
        schedule = TurnSchedule(case["eps"])
        schedule.pause = pause
        t = Trained(case, world, schedule=schedule, train=False, get_net=None if case["net"] == "default" else PausingNet(case["net"], pause))
        pause()
        with sut("train"):
            t.bnn.train(t.x, t.y)
        test = np.random.RandomState(5).normal(size=(4, case["d"])) * case["x_scale"] + case["x_shift"]
        pause()
        with sut("predict"):
            mean, variance = t.bnn.predict(test)
        pause()
        with sut("predict"):
            individual = t.bnn.predict(test, return_individual_predictions=True)[0]
        pause()
        chain = [(flatten(sample), cost) for sample, cost in schedule.updates]
        return chain + [(np.asarray(mean, "float64"), 0.0), (np.asarray(variance, "float64"), 0.0), (np.asarray(individual, "float64"), 0.0)]


def stream_job(case, pause):
    """Minibatches."""
    module, result = mod("pysgmcmc.data_batches"), []
    x = np.arange(60.0).reshape(-1, 3)
    with sut("generating minibatches"):
        stream = (module.generate_shuffled_batches if case["shuffled"] else module.generate_batches)(x, x[:, 0], "x", "y", batch_size=case["batch_size"], seed=case["seed"])
        for _ in range(case["steps"]):
            pause()
            batch = next(stream)
            pause()
            result.append((np.concatenate([batch["x"], batch["y"]], axis=1), 0.0))
    return result


def trace_job(case, pause):
    """Several chains, recorded one after the other."""
    built = []

    def get_sampler(session):
        pause()
        params = [tf.Variable(np.array([0.5, -1.0]), name="x"), tf.Variable(np.float64(2.0), name="y")]
        cls = getattr(mod("pysgmcmc.samplers.sghmc"), "SGHMCSampler")

        def cost_fun(ps):
            pause()
            return tf.reduce_sum(tf.square(ps[0])) + tf.square(ps[1])
        sampler = cls(params=params, cost_fun=cost_fun, session=session, seed=case["seed"] + len(built), burn_in_steps=3)
        built.append(1)
        pause()
        return sampler
    with sut("recording chains"):
        result = mod("pysgmcmc.diagnostics.sample_chains").pymc3_multitrace(get_sampler, n_chains=2, samples_per_chain=4, keep_every=2)
    pause()
    return [(np.concatenate([np.asarray(t.get_values(name), "float64").reshape(-1) for name in t.varnames]), 0.0) for t in result.straces]


JOBS = {"chain": chain_job, "network": network_job, "trace": trace_job, "stream": stream_job}


@st.composite
def jobs_(draw):
    kind = draw(st.sampled_from(["chain", "chain", "chain", "network", "trace", "stream"]))
    if kind == "chain":
        case = draw(any_sampler(max_steps=6, max_burn_in=4))
        case["cost"] = draw(cost_specs())
        case["data"] = draw(st.sampled_from([None, "plain", "shuffled"]))
    elif kind == "network":
        case = draw(settings_(kinds=("single", "linear", "hidden", "scalars", "default"), max_burn_in=5))
        case["n_nets"] = min(case["n_nets"], 3)
    elif kind == "stream":
        case = {"shuffled": draw(st.booleans()), "batch_size": draw(st.integers(1, 20)), "steps": draw(st.integers(1, 6))}
    else:
        case = {}
    case["seed"] = draw(st.one_of(st.sampled_from([0, 1, 2]), seeds32)) % (2 ** 32 - 5)
    case["job"] = kind
    return case


@st.composite
def c45_cases(draw):
    first = draw(jobs_())

    @st.composite
    def siblings(draw):
        """The same thing with other data, random numbers and so on."""
        case = dict(first, seed=draw(st.sampled_from([0, 1, 2, 77])))
        if "data_seed" in case:
            case["data_seed"] = draw(st.integers(0, 10 ** 6))
        if "start" in case:
            case["start"] = [v + 0.125 for v in case["start"]] if draw(st.booleans()) else case["start"]
        return case
    jobs = [first] + draw(st.lists(st.one_of(jobs_(), siblings(), siblings(), st.just(first)), min_size=1, max_size=3))
    return {"jobs": jobs, "order": draw(st.lists(st.integers(0, 11), min_size=1, max_size=40)), "free": draw(st.sampled_from([False, False, True]))}


def side_by_side(case, work):
    """Results (or errors) of all jobs, each in its own thread."""
    n = len(case["jobs"])
    results, errors = [None] * n, [None] * n
    turns = Turns(n, case["order"])

    def run(k):
        try:
            results[k] = work(k, (lambda: None) if case["free"] else (lambda: turns.wait(k)))
        except BaseException as e:
            errors[k] = e
        finally:
            turns.finish(k)
    threads = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(n)]
    interval = sys.getswitchinterval()
    if case["free"]:
        sys.setswitchinterval(1e-5)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(180)
            if t.is_alive():
                raise HarnessError("a thread did not end")
    finally:
        sys.setswitchinterval(interval)
    for e in errors:
        if e is not None:
            raise e
    return results


def run_c45(case, ctx):
    def work(k, pause):
        return JOBS[case["jobs"][k]["job"]](case["jobs"][k], pause)

    alone = [work(k, lambda: None) for k in range(len(case["jobs"]))]
    try:
        together = side_by_side(case, work)
    except Violation as e:
        raise Violation("side by side with others (%s): %s" % (", ".join(j["job"] for j in case["jobs"]), e))
    compared = 0
    for job, a, b in zip(case["jobs"], alone, together):
        require(len(a) == len(b), "a %s has %d results instead of %d when others run beside it", job["job"], len(b), len(a))
        tolerance = 1e-9 if job.get("dtype", "float64") == "float64" else 1e-4
        for t, ((x, u), (y, v)) in enumerate(zip(a, b)):
            if not (np.all(np.isfinite(x)) and np.max(np.abs(x), initial=0) < 1e4):
                break
            require(np.shape(x) == np.shape(y) and np.all(np.abs(x - y) <= tolerance * (1 + np.abs(x))) and (u == v or abs(u - v) <= tolerance * (1 + 100 * abs(u)) or not np.isfinite(u)),
                    "result %d of a %s is %s (cost %s) instead of %s (%s) when run side by side (%s)", t + 1, job["job"], y, v, x, u,
                    ", ".join(j["job"] for j in case["jobs"]))
            compared += 1
    ctx.label("free" if case["free"] else "in turns", "%d jobs" % len(case["jobs"]), *sorted({j["job"] for j in case["jobs"]}))
    ctx.nontrivial(compared >= 4)


# C46 ------------------------------------------------------------------------------------------------------------------

class Listener(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.messages = []

    def emit(self, record):
        self.messages.append(record.getMessage())


NUMBER = r"([-+]?(?:\d[\d.]*(?:e[-+]?\d+)?|nan|inf))"
REPORT = re.compile(r"Iter\s+(\d+)\s*:\s*NLL = %s\s+MSE = %s\s+(?:Samples = (\d+)\s+)?Time =\s*%s" % (NUMBER, NUMBER, NUMBER), re.I)


@st.composite
def c46_cases(draw, size="small"):
    return draw(settings_(kinds=("single", "linear", "hidden", "scalars", "default"), size=size))


def run_c46(case, ctx):
    from pbt.checks.bnn import forward, negative_log_posterior
    listener, root = Listener(), logging.getLogger()
    level = root.level
    disabled = logging.root.manager.disable
    root.addHandler(listener)
    root.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    try:
        with World() as world:
            t = Trained(case, world)
            networks = t.networks()
            chain, _ = t.chain
            x, y = t.normalized()
    finally:
        root.removeHandler(listener)
        root.setLevel(level)
        logging.disable(disabled)
    if not finite(chain):
        ctx.label("diverged")
        return
    reports = [REPORT.search(m) for m in listener.messages]
    reports = [r.groups() for r in reports if r]
    steps, burn_in = len(chain) - 1, case["burn_in_steps"]
    want = [k for k in range(steps) if (k % 512 == 0 if k <= burn_in else k % case["sample_steps"] == 0)]
    require([int(r[0]) for r in reports] == want, "of %d steps (burn-in: %d, a network each %d steps), reports are about %s instead of %s", steps, burn_in, case["sample_steps"],
            [int(r[0]) for r in reports], want)
    dtype_tolerance = 1e-3 if case["dtype"] == "float64" else 2e-2
    last, collected = -1.0, 0
    for iteration, nll, mse, samples, time in reports:
        k = int(iteration)
        weights = chain[k + 1]
        want_nll, magnitude = negative_log_posterior(case, weights, x, y.reshape(-1, 1), case["n"])
        out = forward(case["net"], x, [np.asarray(w, "float64") for w in weights], np)
        want_mse = np.mean((y - out[:, 0]) ** 2)
        require(abs(float(nll) - want_nll) <= dtype_tolerance * (abs(want_nll) + 1e-2 * magnitude), "after iteration %d, the reported NLL is %s, that of the network on all data is %.5g", k, nll, want_nll)
        require(abs(float(mse) - want_mse) <= dtype_tolerance * (want_mse + 1e-6), "after iteration %d, the reported mean squared error is %s, that of the network on all data is %.5g", k, mse, want_mse)
        require(float(time) >= last >= -1.0, "the reported time goes from %s to %s", last, time)
        last = float(time)
        if k > burn_in:
            require(samples is not None and int(samples) == collected, "after iteration %d, %s networks are reported, %d were collected until then", k, samples, collected)
            collected += 1
        else:
            require(samples in (None, "0"), "after iteration %d, %s networks are reported although burn-in lasts for %d steps", k, samples, burn_in)
    require(collected == len(networks), "%d networks are reported, %d collected", collected, len(networks))
    bnn_label(case, ctx)
    ctx.nontrivial(collected > 1)


CHECKS = {
    "C44": lambda: ([Part("samplers", c44_cases(), run_c44, 150, 2000), Part("networks", c44_network_cases(), run_c44_network, 40, 500)],
                    "samplers x targets x steps and networks x settings; non-trivial: several steps after burn-in", ["what is kept is observed by weak references"]),
    "C45": lambda: ([Part("side by side", c45_cases(), run_c45, 60, 1500)],
                    "two to four chains, networks or recordings x orders in which their threads go on; non-trivial: at least four results compared", []),
    "C46": lambda: ([Part("reports", c46_cases(), run_c46, 60, 1000), Part("long", c46_cases("long"), run_c46, 6, 60, portion=1)],
                    "networks x data x settings; non-trivial: more than one network collected", []),
}
