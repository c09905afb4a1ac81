"""C32, C33: traces of samples and recording them from samplers."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt.core import Part, require, sut
from pbt.drive import construct
from pbt.obs import METHODS, Cost, Schedule, World, check_structure, cost_specs, flatten, listed
from pbt.shims import tf
from pbt.util import floats, mod, same

NAMES = ["x", "y", "x:0", "p_1:0", "", "scope/w:0", "0", "1", "2", "a b", "Z", "xx"]


# C32 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c32_cases(draw, large=False):
    case = {"n": draw(st.integers(30, 800) if large else st.one_of(st.integers(1, 4), st.integers(1, 25)))}
    case["form"] = draw(st.sampled_from(["lists", "lists", "tuples", "arrays", "matrix", "plain floats", "numpy floats", "vector"]))
    single = case["form"] in ("plain floats", "numpy floats", "vector")
    case["vars"] = 1 if single else draw(st.integers(1, 40) if large else st.integers(1, 5))
    shapes = st.sampled_from([[], [], [1], [2], [2, 2], [3, 1]])
    case["shapes"] = [draw(shapes) if case["form"] in ("lists", "tuples") else [] for _ in range(case["vars"])]
    case["dtype"] = draw(st.sampled_from(["float64", "float32"]))
    names = NAMES + ["v%d" % i for i in range(40)] if large else NAMES
    case["names"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(names), min_size=case["vars"], max_size=case["vars"], unique=True)))
    case["chain"] = draw(st.integers(0, 2000))
    case["data_seed"] = draw(st.integers(0, 1000))
    number = st.one_of(st.integers(0, 4), st.integers(0, 900 if large else 30))
    bound = st.integers(-40, 40) if large else st.integers(-5, 5)
    op = st.one_of(
        st.tuples(st.just("values"), number, number, st.integers(1, 6)),
        st.tuples(st.just("values"), number, number, st.integers(1, 30)),
        st.tuples(st.just("default values"), number),
        st.tuples(st.just("index"), number),
        st.tuples(st.just("point"), st.integers(-800, 800) if large else st.integers(-30, 30)),
        st.tuples(st.just("len")),
        st.tuples(st.just("slice"), st.one_of(st.none(), bound), st.one_of(st.none(), bound), st.sampled_from([None, 1, 2, -1])),
        st.tuples(st.just("unknown"), st.sampled_from(NAMES + ["x:1", "FANTASYVARNAME", "5"])),
        st.tuples(st.just("back")))
    case["ops"] = [list(o) for o in draw(st.lists(op, min_size=1, max_size=12))]
    return case


def make_samples(case):
    """Samples as given to the trace and as the model sees them (list of lists of arrays)."""
    rng = np.random.RandomState(case["data_seed"])
    dtype = np.dtype(case["dtype"])
    model = [[np.asarray(rng.normal(size=shape), dtype) for shape in case["shapes"]] for _ in range(case["n"])]
    scalar = lambda v: v[()] if v.shape == () else v.copy()
    form = case["form"]
    if form == "plain floats":
        model = [[np.asarray(float(v), "float64") for v in sample] for sample in model]
        return [float(s[0]) for s in model], model
    if form == "numpy floats":
        return [scalar(s[0]) for s in model], model
    if form == "vector":
        return np.array([s[0] for s in model], dtype), model
    if form == "matrix":
        return np.array(model, dtype), model
    if form == "arrays":
        return [np.array(s, dtype) for s in model], model
    return [(tuple if form == "tuples" else list)(scalar(v) for v in s) for s in model], model


def check_values(got, want, what):
    require(len(got) == len(want), "%s has %d values instead of %d", what, len(got), len(want))
    if want:
        require(isinstance(got, np.ndarray) and same(got, np.asarray(want)), "%s is %r, the samples have %r", what, got, np.asarray(want))


def run_c32(case, ctx):
    trace_class = mod("pysgmcmc.diagnostics.sample_chains").PYSGMCMCTrace
    samples, model = make_samples(case)
    names = case["names"]
    with sut("constructing a trace"):
        trace = trace_class(case["chain"], samples, list(names) if names is not None else None)
    if names is None:
        names = [str(i) for i in range(case["vars"])]
    stack, interesting = [(trace, model, names)], 0
    for op in case["ops"]:
        trace, model, names = stack[-1]
        require(list(trace.varnames) == list(names), "the trace's names are %s instead of %s", trace.varnames, names)
        require(trace.chain == case["chain"], "the trace's id is %r instead of %r", trace.chain, case["chain"])
        require(trace.n_vars == len(names), "the trace has %r variables instead of %d", trace.n_vars, len(names))
        kind, args = op[0], op[1:]
        where = "%s%s of a trace with %d samples of %d variables" % (kind, tuple(args), len(model), len(names))
        if kind == "values":
            v, burn, thin = args[0] % len(names), args[1], args[2]
            with sut(where):
                got = trace.get_values(names[v], burn=burn, thin=thin)
            want = [sample[v] for k, sample in enumerate(model) if k >= burn and (k - burn) % thin == 0]
            check_values(got, want, where)
            interesting += len(want) > 1
        elif kind == "default values":
            v = args[0] % len(names)
            with sut(where):
                got = trace.get_values(names[v])
            check_values(got, [sample[v] for sample in model], where)
            interesting += 1
        elif kind == "index":
            v = args[0] % len(names)
            with sut(where):
                got = trace[v]
            check_values(got, [sample[v] for sample in model], where)
            interesting += 1
        elif kind == "point":
            k = args[0] if -len(model) <= args[0] < len(model) else args[0] % len(model)
            with sut(where):
                got = trace.point(k)
            require(isinstance(got, dict) and sorted(got) == sorted(names) and all(same(got[name], value) for name, value in zip(names, model[k])),
                    "%s is %r, sample %d is %r", where, got, k, dict(zip(names, model[k])))
            interesting += 1
        elif kind == "len":
            require(len(trace) == len(model), "%s is %d", where, len(trace))
        elif kind == "slice":
            chosen = slice(*args)
            if names[chosen]:
                with sut(where):
                    sliced = trace._slice(chosen)
                stack.append((sliced, [sample[chosen] for sample in model], list(names)[chosen]))
                interesting += 1
        elif kind == "unknown" and args[0] not in names:
            try:
                with sut(where, allow=(ValueError,)):
                    got = trace.get_values(args[0])
            except ValueError:
                pass
            else:
                require(False, "%s is %r, not ValueError", where, got)
        elif kind == "back" and len(stack) > 1:
            stack.pop()
    ctx.label(case["form"], "sliced" if any(op[0] == "slice" for op in case["ops"]) else "whole")
    ctx.nontrivial(interesting >= 1 and case["n"] >= 2)


# C33 ------------------------------------------------------------------------------------------------------------------

SHAPES = [[], [1], [2], [2, 2], [3]]


@st.composite
def samplers_(draw, dtypes=("float64", "float64", "float32")):
    case = {"method": draw(st.sampled_from(METHODS + ("SVGD",)))}
    large = draw(st.integers(0, 3)) == 0
    if large and case["method"] == "SVGD":
        case["shapes"] = [[draw(st.integers(5, 20))]] * draw(st.integers(5, 12))
    elif large:
        case["shapes"] = draw(st.lists(st.sampled_from([[20], [6, 5], [12, 3], [64], [3, 3, 3], [1, 40], []]), min_size=1, max_size=8))
    elif case["method"] == "SVGD":
        case["shapes"] = [draw(st.sampled_from([[1], [2], [3]]))] * draw(st.integers(2, 4))
    else:
        case["shapes"] = draw(st.lists(st.sampled_from(SHAPES), min_size=1, max_size=4))
    n = sum(int(np.prod(s, dtype=int)) for s in case["shapes"])
    if large:
        # (distinct values, not a straight line of particles)
        case["start"] = [round(1.5 * np.sin(1.7 * i) + 0.01 * (i % 13) + draw(st.sampled_from([0.0, 0.1])) * (i < 5), 4) for i in range(n)]
    else:
        case["start"] = [round(0.37 * i - 0.8 + 0.1 * draw(floats(-1.0, 1.0)), 4) for i in range(n)]
    case["dtype"] = draw(st.sampled_from(dtypes))
    case["cost"] = draw(cost_specs())
    case["hyper"] = {}
    if case["method"] in ("SGHMC", "SGLD"):
        case["hyper"] = {"burn_in_steps": draw(st.integers(0, 12))}
    case["eps"] = draw(st.sampled_from([[0.01], [0.03], [0.02, 0.01, 0.005]]))
    case["seed"] = draw(st.integers(0, 1000))
    case["names"] = draw(st.lists(st.sampled_from(["p", "w", "theta", "scope_x"]), min_size=len(case["shapes"]), max_size=len(case["shapes"])))
    return case


def make_params(case, shift=0.0):
    result, offset = [], 0
    for name, shape in zip(case["names"], case["shapes"]):
        size = int(np.prod(shape, dtype=int))
        value = np.asarray(case["start"][offset:offset + size], case["dtype"]).reshape(shape) + np.dtype(case["dtype"]).type(shift)
        result.append(tf.Variable(value, dtype=case["dtype"], name=name))
        offset += size
    return result


class Made(object):
    """A sampler of a case which remembers the samples it hands out."""

    def __init__(self, case, session, seed, shift=0.0):
        self.session, self.params, self.steps = session, make_params(case, shift), []
        n = sum(int(np.prod(s, dtype=int)) for s in (case["shapes"][:1] if case["method"] == "SVGD" else case["shapes"]))
        self.cost = Cost(case["cost"], n, case["dtype"])
        method = case["method"]
        cost_fun = (lambda params: self.cost.tensor([params] if not isinstance(params, (list, tuple)) else params)) if method == "SVGD" else self.cost.tensor
        self.sampler = construct(method, self.params, cost_fun, session, dict(case, seed=None if method == "SVGD" else seed), Schedule(case["eps"]))
        base, steps = type(self.sampler), self.steps

        class Watched(base):
            def __next__(self, *args, **kwargs):
                result = base.__next__(self, *args, **kwargs)
                steps.append([np.array(a) for a in listed(result[0], len(self.params))])
                return result
        self.sampler.__class__ = Watched

    def advance(self, k):
        with sut("sampler step"):
            for _ in range(k):
                next(self.sampler)
        del self.steps[:]

    @property
    def names(self):
        return [p.name for p in self.params]


def fine(steps):
    return all(np.all(np.isfinite(a)) and np.max(np.abs(a), initial=0) < 1e3 for step in steps for a in step)


def check_trace(trace, steps, n, every, names, where):
    """`steps`: all samples the sampler handed out while the trace was recorded."""
    require(len(trace) == n, "%s: the trace has %d samples instead of %d", where, len(trace), n)
    require(list(trace.varnames) == list(names), "%s: the trace's names are %s instead of %s", where, trace.varnames, names)
    require((n - 1) * every < len(steps) <= n * every, "%s: %d steps were made for %d samples, one of each %d", where, len(steps), n, every)
    want = steps[::every]
    for v, name in enumerate(names):
        with sut(where):
            got = trace[v] if len(set(names)) < len(names) else trace.get_values(name)
        require(same(got, np.asarray([sample[v] for sample in want])), "%s: the trace has the values %s for %s, the chain's are %s (every %d of %s)",
                where, got, name, [sample[v] for sample in want], every, [sample[v] for sample in steps])


def check_continues(case, seed, advance, shift, steps, where):
    """The chain is the one of an identical sampler that is advanced and then simply iterated."""
    with World() as world:
        twin = Made(case, world.session, seed, shift)
        world.initialize()
        twin.advance(advance)
        with sut("sampler step"):
            for _ in steps:
                next(twin.sampler)
        if not fine(twin.steps) or not fine(steps):
            return False
        tolerance = 1e-8 if case["dtype"] == "float64" else 1e-3
        for k, (got, want) in enumerate(zip(steps, twin.steps)):
            require(all(np.all(np.abs(a - b) <= tolerance * (1 + np.abs(b))) for a, b in zip(got, want)),
                    "%s: step %d while recording gives %s, continuing the chain (after %d steps) gives %s", where, k + 1, got, advance, want)
    return True


@st.composite
def c33_cases(draw, long=False):
    case = draw(samplers_(("float64",) if long else ("float64", "float64", "float32")))
    case["advance"] = draw(st.one_of(st.integers(0, 3), st.integers(0, 15)))
    if long:
        case["advance"] = draw(st.integers(0, 40))
    case["n_samples"] = draw(st.integers(10, 120) if long else st.integers(1, 8))
    case["keep_every"] = draw(st.one_of(st.just(None), st.integers(1, 30 if long else 5)))
    case["varnames"] = draw(st.booleans())
    case["chain"] = draw(st.integers(0, 2000))
    return case


def run_record(case, ctx):
    module = mod("pysgmcmc.diagnostics.sample_chains")
    n, every = case["n_samples"], case["keep_every"] or 1
    with World() as world:
        made = Made(case, world.session, case["seed"])
        world.initialize()
        made.advance(case["advance"])
        kwargs, names = {}, made.names
        if case["keep_every"] is not None:
            kwargs["keep_every"] = case["keep_every"]
        if case["varnames"]:
            names = kwargs["varnames"] = ["name %d" % i for i in range(len(made.params))]
        with sut("from_sampler"):
            trace = module.PYSGMCMCTrace.from_sampler(case["chain"], made.sampler, n, **kwargs)
        steps = list(made.steps)
        require(trace.chain == case["chain"], "the trace has id %r instead of %r", trace.chain, case["chain"])
        check_trace(trace, steps, n, every, names, "recording")
        # recording again continues the chain, and what was recorded stays what it was
        with sut("from_sampler"):
            second = module.PYSGMCMCTrace.from_sampler(case["chain"] + 1, made.sampler, 2, **kwargs)
        check_trace(second, made.steps[len(steps):], 2, every, names, "recording again")
        check_trace(trace, steps, n, every, names, "the first recording, after the second")
        compared = check_continues(case, case["seed"], case["advance"], 0.0, made.steps, "recording")
    ctx.label(case["method"], "single parameter" if len(case["shapes"]) == 1 else "several parameters", "large" if len(case["start"]) > 18 else "small",
              "burnt in before" if case["advance"] >= case["hyper"].get("burn_in_steps", 0) else "across burn-in")
    ctx.nontrivial(compared and n * every >= 2)


@st.composite
def huge_cases(draw):
    every = draw(st.sampled_from([1, 3, 1000, 5000, 40000]))
    return {"single": draw(st.booleans()), "n_samples": draw(st.integers(1, 3)) if every > 100 else draw(st.sampled_from([20000, 70000])), "keep_every": every,
            "burn": draw(st.integers(0, 25000)), "thin": draw(st.integers(1, 3000))}


def run_huge(case, ctx):
    """A sampler that counts its steps, recorded for as long as that takes."""
    trace_class = mod("pysgmcmc.diagnostics.sample_chains").PYSGMCMCTrace
    with World() as world:
        params = [tf.Variable(np.float64(0.0), name="v")] + ([] if case["single"] else [tf.Variable(np.zeros(2), name="w")])
        sampler = construct("SGHMC", params, lambda ps: tf.add_n([tf.reduce_sum(p) for p in ps]), world.session, {"dtype": "float64", "seed": 1}, None)
        world.initialize()
        steps = itertools.count()

        class Counting(type(sampler)):
            def __next__(self, *args, **kwargs):
                k = float(next(steps))
                return (np.array(k) if len(self.params) == 1 else [np.array(k), np.array([-k, 0.5 * k])]), np.array(0.0)
        sampler.__class__ = Counting
        n, every = case["n_samples"], case["keep_every"]
        with sut("from_sampler"):
            trace = trace_class.from_sampler(0, sampler, n, keep_every=every)
            values = trace.get_values("v:0")
            some = trace.get_values("v:0", burn=case["burn"], thin=case["thin"])
        want = np.arange(n) * float(every)
        require(len(trace) == n and same(values, want), "recording %d samples, one of each %d steps, gives %d: %s", n, every, len(trace), values)
        require(same(np.asarray(some, "float64"), want[case["burn"]::case["thin"]]), "burn=%d, thin=%d of %d samples gives %d: %s", case["burn"], case["thin"], n, len(some), some)
        if not case["single"]:
            with sut("get_values"):
                pair = trace.get_values("w:0")
            require(same(pair, np.stack([-want, 0.5 * want], axis=1)), "the second parameter's values are %s", pair)
        drawn = next(steps)
        require((n - 1) * every < drawn <= n * every, "%d steps were made for %d samples, one of each %d", drawn, n, every)
    ctx.nontrivial(n * every > 1000)


@st.composite
def multi_cases(draw, long=False):
    case = draw(samplers_(("float64",) if long else ("float64", "float64", "float32")))
    case["function"] = draw(st.sampled_from(["pymc3_multitrace", "pymc3_multitrace", "effective_sample_sizes", "gelman_rubin"]))
    case["n_chains"] = draw(st.integers(3, 9) if long else st.one_of(st.none(), st.integers(1, 4)))
    case["n_samples"] = draw(st.integers(5, 40) if long else st.integers(1, 4))
    case["keep_every"] = draw(st.one_of(st.none(), st.integers(1, 25 if long else 4)))
    case["varnames"] = draw(st.booleans())
    case["state"] = draw(st.sampled_from(["uninitialised", "initialised", "burnt in", "burnt in"]))
    case["advance"] = draw(st.integers(1, 12)) if case["state"] == "burnt in" else 0
    case["same_seed"] = draw(st.booleans())
    return case


def run_multi(case, ctx):
    chains = mod("pysgmcmc.diagnostics.sample_chains")
    diagnostics = mod("pysgmcmc.diagnostics.sampler_diagnostics")
    made = []
    seed_of = lambda i: case["seed"] + (0 if case["same_seed"] else i)
    shift_of = lambda i: 0.25 * i
    named = case["varnames"] and case["function"] == "pymc3_multitrace"
    names = ["name %d" % i for i in range(len(case["shapes"]))]

    def get_sampler(session):
        i = len(made)
        m = Made(case, session, seed_of(i), shift_of(i))
        made.append(m)
        if case["state"] != "uninitialised":
            session.run(tf.global_variables_initializer())
        m.advance(case["advance"])
        return m.sampler

    kwargs = {"samples_per_chain": case["n_samples"]}
    if case["n_chains"] is not None:
        kwargs["n_chains"] = case["n_chains"]
    every = 10
    if case["function"] == "pymc3_multitrace":
        if case["keep_every"] is not None:
            every = kwargs["keep_every"] = case["keep_every"]
        if named:
            kwargs["parameter_names"] = names
        with sut("pymc3_multitrace"):
            multitrace = chains.pymc3_multitrace(get_sampler, **kwargs)
    else:
        with sut(case["function"]):
            result = getattr(diagnostics, case["function"])(get_sampler, **kwargs)
        what = {"effective_sample_sizes": "ess", "gelman_rubin": "gelman_rubin"}[case["function"]]
        require(isinstance(result, tuple) and result[0] == what, "%s returns %r, not pymc3's %s", case["function"], result, what)
        multitrace = result[1]
    n_chains = 2 if case["n_chains"] is None else case["n_chains"]
    traces = list(multitrace.straces)
    require(len(traces) == n_chains, "%d chains instead of %d", len(traces), n_chains)
    require(len(set(t.chain for t in traces)) == n_chains, "the chains have the ids %s", [t.chain for t in traces])
    require(len(made) == n_chains, "%d samplers were made for %d chains", len(made), n_chains)
    compared = True
    for i, (trace, m) in enumerate(zip(traces, made)):
        where = "chain %d of %d" % (i, n_chains)
        check_trace(trace, m.steps, case["n_samples"], every, names if named else m.names, where)
        compared = check_continues(case, seed_of(i), case["advance"], shift_of(i), m.steps, where) and compared
    ctx.label(case["method"], case["function"], case["state"], "%d chains" % n_chains)
    ctx.nontrivial(compared and (n_chains >= 2 or case["n_samples"] >= 2))


CHECKS = {
    "C32": lambda: ([Part("operations", c32_cases(), run_c32, 2500, 40000), Part("large", c32_cases(True), run_c32, 250, 5000)],
                    "samples x sequences of reads and slices; non-trivial: at least two samples and a read of several values, a point or a slice",
                    ["slicing through _slice, as pymc3 does; variable names are distinct; an empty selection of variables is not sliced"]),
    "C33": lambda: ([Part("recording", c33_cases(), run_record, 120, 3000), Part("chains", multi_cases(), run_multi, 60, 1200),
                     Part("long recordings", c33_cases(True), run_record, 24, 400), Part("huge recordings", huge_cases(), run_huge, 12, 150),
                     Part("many chains", multi_cases(True), run_multi, 12, 200, portion=2)],
                    "samplers x histories x numbers of samples and chains x thinning; non-trivial: the chain could be compared with an identical one",
                    ["pymc3 is replaced by a stand-in that keeps the traces", "seeds are given except for SVGD, which draws nothing"]),
}
