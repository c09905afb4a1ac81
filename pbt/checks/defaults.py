"""C47: settings that are left out take their documented defaults."""
import numpy as np
from hypothesis import strategies as st

from pbt.checks.bnn import COUNTS, Net, dataset, settings_
from pbt.checks.protocol import any_sampler, dimension, label
from pbt.core import Part, require, sut
from pbt.drive import DEFAULTS
from pbt.obs import Cost, Schedule, World, cost_specs, listed, sampler_class
from pbt.shims import tf
from pbt.util import mod, same, seeds32

SAMPLER_DEFAULTS = {
    "SGHMC": {"burn_in_steps": 3000, "mdecay": 0.05, "scale_grad": 1.0}, "SGLD": {"burn_in_steps": 3000, "A": 1.0, "scale_grad": 1.0},
    "RelativisticSGHMC": {"mass": 1.0, "speed_of_light": 1.0, "D": 1.0, "Bhat": 0.0}, "SVGD": {"alpha": 0.9, "fudge_factor": 1e-6}}
STEPSIZE = {"SGHMC": 0.01, "SGLD": 0.01, "RelativisticSGHMC": 0.001, "SVGD": 0.1}


def constant(value):
    return mod("pysgmcmc.stepsize_schedules").ConstantStepsizeSchedule(value)


# samplers -------------------------------------------------------------------------------------------------------------

@st.composite
def sampler_cases(draw):
    case = draw(any_sampler(max_steps=12, max_burn_in=8))
    names = sorted(SAMPLER_DEFAULTS[case["method"]]) + ["stepsize_schedule", "dtype", "session", "batch_generator"]
    case["omit"] = draw(st.lists(st.sampled_from(names), unique=True, min_size=1))
    if "dtype" in case["omit"]:
        case["dtype"] = "float64"
    case["cost"] = draw(cost_specs())
    case["seed"] = draw(seeds32)
    case["factory"] = draw(st.booleans())
    return case


def chain(case, explicit):
    """The chain of a sampler; what the case omits is given as documented if `explicit`."""
    method = case["method"]
    with World(threads=1) as world:
        params = world.make_params(case)
        cost = Cost(case["cost"], dimension(case), case["dtype"])
        fun = (lambda particle: cost.tensor([particle])) if method == "SVGD" else cost.tensor
        kwargs = dict(SAMPLER_DEFAULTS[method], **case.get("hyper", {}))
        for name in case["omit"]:
            if name in SAMPLER_DEFAULTS[method]:
                kwargs[name] = SAMPLER_DEFAULTS[method][name]
        kwargs.update(stepsize_schedule=Schedule(case["eps"]), dtype=tf.as_dtype(case["dtype"]), session=world.session, batch_generator=None)
        if "stepsize_schedule" in case["omit"]:
            kwargs["stepsize_schedule"] = constant(STEPSIZE[method])
        if not explicit:
            for name in case["omit"]:
                del kwargs[name]
        kwargs["particles" if method == "SVGD" else "params"] = params
        kwargs["seed"] = case["seed"]
        with world.session.as_default(), sut("constructing " + method):
            if case["factory"]:
                factory = mod("pysgmcmc.sampling").Sampler
                sampler = factory.get_sampler(getattr(factory, method), cost_fun=fun, **kwargs)
            else:
                sampler = sampler_class(method)(cost_fun=fun, **kwargs)
        world.initialize()
        steps = []
        with sut("sampler steps"):
            for _ in range(case["steps"]):
                sample, value = next(sampler)
                steps.append([np.array(a) for a in listed(sample, len(params))] + [np.array(value)])
        if "burn_in_steps" in kwargs or "burn_in_steps" in case["omit"]:
            steps.append([np.array(bool(sampler.is_burning_in))])
    return steps


def run_sampler(case, ctx):
    a, b = chain(case, False), chain(case, True)
    for t, (step, given) in enumerate(zip(a, b)):
        for x, y in zip(step, given):
            require(same(x, y), "without %s, step %d gives %s; with their documented defaults given: %s", ", ".join(case["omit"]), t + 1, x, y)
    label(case, ctx)
    ctx.label(*["omits " + name for name in case["omit"]])
    ctx.nontrivial(case["steps"] >= 2)


@st.composite
def burn_in_cases(draw):
    case = draw(sampler_cases().filter(lambda case: case["method"] in ("SGHMC", "SGLD")))
    case["omit"] = sorted(set(case["omit"] + ["burn_in_steps"]) - {"session"})
    case["steps"] = draw(st.integers(3005, 3030))
    return case


# networks -------------------------------------------------------------------------------------------------------------

NETWORK_DEFAULTS = {"batch_size": 20, "n_nets": 100, "burn_in_steps": 1000, "sample_steps": 100, "normalize_input": True, "normalize_output": True,
                    "dtype": "float64", "sampling_method": "SGHMC", "batch_generator": "generate_batches", "stepsize_schedule": 1e-2, "mdecay": 0.05,
                    "get_net": "default", "n_iters": 50000}
SLOW = ("n_nets", "burn_in_steps", "sample_steps")


@st.composite
def network_cases(draw, slow=False):
    case = draw(settings_(kinds=("single", "linear", "scalars")))
    case["n"] = draw(st.integers(21, 60)) if draw(st.integers(0, 3)) else case["n"]
    names = [name for name in sorted(NETWORK_DEFAULTS) if name not in SLOW + ("n_iters",)]
    case["omit"] = draw(st.lists(st.sampled_from(names), unique=True, min_size=0 if slow else 1))
    if slow:
        case["omit"] += draw(st.lists(st.sampled_from(SLOW), unique=True, min_size=1))
    for name in case["omit"]:
        if name in COUNTS + ["normalize_input", "normalize_output"]:
            case[name] = NETWORK_DEFAULTS[name]
    if "get_net" in case["omit"]:
        case["net"] = "default"
    if "sampling_method" in case["omit"]:
        case["method"] = "SGHMC"
    if "dtype" in case["omit"]:
        case["dtype"] = "float64"
    if case["normalize_input"] or case["normalize_output"]:
        case["n"] = max(case["n"], 2)
    if "burn_in_steps" in case["omit"]:
        case["sample_steps"] = min(case["sample_steps"], 6) if "sample_steps" not in case["omit"] else 100
    case["n_iters"] = 20000
    case["seed"] = draw(seeds32)
    return case


def training(case, explicit):
    data, sampler = mod("pysgmcmc.data_batches"), mod("pysgmcmc.sampling").Sampler
    x, y = dataset(case)
    with World(threads=1) as world:
        kwargs = {name: case[name] for name in COUNTS + ["seed", "normalize_input", "normalize_output"]}
        kwargs.update(dtype=tf.as_dtype(case["dtype"]), sampling_method=getattr(sampler, case["method"]), stepsize_schedule=constant(case["eps"][0]),
                      batch_generator=data.generate_shuffled_batches if case["shuffled"] else data.generate_batches)
        if case["net"] != "default":
            kwargs["get_net"] = Net(case["net"])
        if case["method"] == "SGHMC":
            kwargs["mdecay"] = 0.2
        for name in case["omit"]:
            kwargs.pop(name, None)
        if explicit:
            given = {name: NETWORK_DEFAULTS[name] for name in case["omit"]}
            for name, convert in (("dtype", tf.as_dtype), ("sampling_method", lambda m: getattr(sampler, m)), ("batch_generator", lambda g: getattr(data, g)),
                                  ("stepsize_schedule", constant), ("get_net", lambda _: mod("pysgmcmc.models.bayesian_neural_network").get_default_net)):
                if name in given:
                    given[name] = convert(given[name])
            if case["method"] != "SGHMC":
                given.pop("mdecay", None)
            kwargs.update(given)
        with sut("constructing a network"):
            bnn = mod("pysgmcmc.models.bayesian_neural_network").BayesianNeuralNetwork(session=world.session, **kwargs)
        with sut("train"):
            bnn.train(x, y)
        with sut("predict"):
            outputs, noise = bnn.predict(x[:5], return_individual_predictions=True)
            mean, variance = bnn.predict(x[:5])
    return {"individual predictions": outputs, "noise variances": noise, "mean": mean, "variance": variance}


def run_network(case, ctx):
    a, b = training(case, False), training(case, True)
    for what in a:
        require(np.shape(a[what]) == np.shape(b[what]), "without %s, the %s have shape %s; with their documented defaults given: %s",
                ", ".join(case["omit"]), what, np.shape(a[what]), np.shape(b[what]))
        require(np.array_equal(a[what], b[what], equal_nan=True), "without %s, the %s are %s; with their documented defaults given: %s",
                ", ".join(case["omit"]), what, a[what], b[what])
    require(len(a["noise variances"]) == case["n_nets"], "%d networks instead of %d", len(a["noise variances"]), case["n_nets"])
    ctx.label(case["method"], *["omits " + name for name in case["omit"]])
    ctx.nontrivial(bool(np.all(np.isfinite(a["mean"]))))


def run_iterations(case, ctx):
    """Without n_iters, training makes 50000 iterations."""
    with World() as world:
        schedule = Schedule([case["eps"]])
        with sut("constructing a network"):
            bnn = mod("pysgmcmc.models.bayesian_neural_network").BayesianNeuralNetwork(
                session=world.session, get_net=Net("single"), n_nets=10 ** 6, burn_in_steps=10, sample_steps=10000, batch_size=case["batch_size"],
                stepsize_schedule=schedule, seed=case["seed"])
        x = np.linspace(0, 1, 10)[:, None]
        with sut("train"):
            bnn.train(x, np.sin(5 * x[:, 0]))
    require(schedule.calls == 50000, "training made %d steps instead of 50000", schedule.calls)
    ctx.nontrivial()


# batches --------------------------------------------------------------------------------------------------------------

@st.composite
def batch_cases(draw):
    return {"n": draw(st.one_of(st.integers(1, 25), st.integers(21, 300))), "shuffled": draw(st.booleans()), "seed": draw(st.one_of(st.none(), seeds32)),
            "draws": draw(st.integers(1, 30)), "omit_seed": draw(st.booleans())}


def run_batches(case, ctx):
    data = mod("pysgmcmc.data_batches")
    function = data.generate_shuffled_batches if case["shuffled"] else data.generate_batches
    x, y = np.arange(2.0 * case["n"]).reshape(-1, 2), np.arange(1.0 * case["n"])
    with tf.Graph().as_default():
        placeholders = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
    seed = None if case["omit_seed"] else case["seed"]
    with sut("drawing batches"):
        a = function(x, y, *placeholders, **({} if case["omit_seed"] else {"seed": seed}))
        b = function(x, y, *placeholders, batch_size=20, seed=seed)
        for k in range(case["draws"]):
            first, second = next(a), next(b)
            size = min(20, case["n"])
            require(first[placeholders[0]].shape == (size, 2) and first[placeholders[1]].shape == (size, 1), "batch %d has shapes %s and %s instead of %d rows", k,
                    first[placeholders[0]].shape, first[placeholders[1]].shape, size)
            if seed is not None:
                require(all(same(first[p], second[p]) for p in placeholders), "batch %d is %s without batch size, %s with batch size 20", k, first, second)
    ctx.label("seeded" if seed is not None else "unseeded", "shuffled" if case["shuffled"] else "plain")
    ctx.nontrivial(case["n"] > 20)


# diagnostics ----------------------------------------------------------------------------------------------------------

@st.composite
def diagnostic_cases(draw):
    return {"function": draw(st.sampled_from(["effective_sample_sizes", "gelman_rubin", "pymc3_multitrace"])),
            "omit": draw(st.lists(st.sampled_from(["n_chains", "samples_per_chain"]), unique=True, min_size=1)),
            "n_chains": draw(st.integers(1, 4)), "samples_per_chain": draw(st.integers(1, 12)), "seed": draw(seeds32)}


def run_diagnostic(case, ctx):
    chains, diagnostics = mod("pysgmcmc.diagnostics.sample_chains"), mod("pysgmcmc.diagnostics.sampler_diagnostics")
    kwargs = {name: case[name] for name in ("n_chains", "samples_per_chain") if name not in case["omit"]}
    if case["function"] == "pymc3_multitrace":
        kwargs["keep_every"] = 1

    def get_sampler(session):
        param = tf.Variable(np.zeros(2), dtype=tf.float64)
        return sampler_class("SGLD")([param], lambda ps: tf.reduce_sum(ps[0] ** 2), session=session, burn_in_steps=0, seed=case["seed"])
    with sut(case["function"]):
        function = getattr(chains if case["function"] == "pymc3_multitrace" else diagnostics, case["function"])
        result = function(get_sampler, **kwargs)
    traces = list((result if case["function"] == "pymc3_multitrace" else result[1]).straces)
    want = dict({"n_chains": 2, "samples_per_chain": 100}, **kwargs)
    require(len(traces) == want["n_chains"], "%d chains instead of %d", len(traces), want["n_chains"])
    for trace in traces:
        require(len(trace) == want["samples_per_chain"], "%d samples instead of %d", len(trace), want["samples_per_chain"])
    ctx.label(case["function"], *["omits " + name for name in case["omit"]])
    ctx.nontrivial()


CHECKS = {
    "C47": lambda: ([Part("sampler", sampler_cases(), run_sampler, 80, 1500), Part("burn-in", burn_in_cases(), run_sampler, 6, 60, portion=1),
                     Part("network", network_cases(), run_network, 48, 900), Part("long training", network_cases(slow=True), run_network, 12, 120, portion=2),
                     Part("iterations", None, run_iterations, 0, 0, explicit=[{"eps": 1e-4, "batch_size": 3, "seed": 1}]),
                     Part("batches", batch_cases(), run_batches, 200, 4000), Part("diagnostics", diagnostic_cases(), run_diagnostic, 24, 400)],
                    "samplers, networks, batches and diagnostics x settings left out; non-trivial: two steps or more / finite predictions / more data than a batch",
                    ["defaults that the documentation does not name are those of the published signature"]),
}
