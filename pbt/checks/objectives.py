"""C34: benchmark log-likelihoods and synthetic objectives."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Part, require, sut
from pbt.shims import tf
from pbt.util import floats, mod

# definitions, in plain Python ----------------------------------------------------------------------------------------


def hartmann(alpha, A, P):
    return lambda x: -sum(a * math.exp(-sum(w * (v - p / 10000.0) ** 2 for w, v, p in zip(row, x, center)))
                          for a, row, center in zip(alpha, A, P))


def bohachevski(x):
    return x[0] ** 2 + 2 * x[1] ** 2 - 0.3 * math.cos(3 * math.pi * x[0]) - 0.4 * math.cos(4 * math.pi * x[1]) + 0.7


def branin(x):
    a, b, c, r, s, t = 1.0, 5.1 / (4 * math.pi ** 2), 5 / math.pi, 6.0, 10.0, 1 / (8 * math.pi)
    return a * (x[1] - b * x[0] ** 2 + c * x[0] - r) ** 2 + s * (1 - t) * math.cos(x[0]) + s


def camelback(x):
    u, v = x
    return 4 * u ** 2 - 2.1 * u ** 4 + u ** 6 / 3 + u * v - 4 * v ** 2 + 4 * v ** 4


def goldstein_price(x):
    u, v = x
    first = 1 + (u + v + 1) ** 2 * (19 - 14 * u + 3 * u ** 2 - 14 * v + 6 * u * v + 3 * v ** 2)
    return first * (30 + (2 * u - 3 * v) ** 2 * (18 - 32 * u + 12 * u ** 2 + 48 * v - 36 * u * v + 27 * v ** 2))


def levy(x):
    w = 1 + (x[0] - 1) / 4
    return math.sin(math.pi * w) ** 2 + (w - 1) ** 2 * (1 + math.sin(2 * math.pi * w) ** 2)


def sine(v):
    return 0.5 * math.sin(13 * v) * math.sin(27 * v) + 0.5


hartmann3 = hartmann([1.0, 1.2, 3.0, 3.2], [[3, 10, 30], [0.1, 10, 35]] * 2,
                     [[3689, 1170, 2673], [4699, 4387, 7470], [1090, 8732, 5547], [381, 5743, 8828]])
hartmann6 = hartmann([1.0, 1.2, 3.0, 3.2],
                     [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]],
                     [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991],
                      [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]])

# name -> definition, box of its domain, documented optima and optimal value, sign (1: minimum, -1: maximum), size of the terms
FUNCTIONS = {
    "bohachevski": (bohachevski, [(-100, 100)] * 2, [[0.0, 0.0]], 0.0),
    "branin": (branin, [(-5, 10), (0, 15)], [[-math.pi, 12.275], [math.pi, 2.275], [9.42478, 2.475]], 0.39788735773),
    "camelback": (camelback, [(-3, 3), (-2, 2)], [[0.0898, -0.7126], [-0.0898, 0.7126]], -1.03162842),
    "goldstein_price": (goldstein_price, [(-2, 2)] * 2, [[0.0, -1.0]], 3.0),
    "hartmann3": (hartmann3, [(0, 1)] * 3, [[0.114614, 0.555649, 0.852547]], -3.8627795317627736),
    "hartmann6": (hartmann6, [(0, 1)] * 6, [[0.20169, 0.150011, 0.476874, 0.275332, 0.311652, 0.6573]], -3.322368011391339),
    "levy": (levy, [(-15, 10)], [[1.0]], 0.0),
    "rosenbrock": (lambda x: 100 * (x[1] - x[0] ** 2) ** 2 + (x[0] - 1) ** 2, [(-5, 10)] * 2, [[1.0, 1.0]], 0.0),
    "sin_one": (lambda x: sine(x[0]), [(0, 1)], [[0.6330131633013163]], 0.042926342433644127),
    "sin_two": (lambda x: sine(x[0]) * sine(x[1]), [(0, 1)] * 2, [[0.6330131633013163] * 2], 0.042926342433644127 ** 2),
    "banana_log_likelihood": (lambda x: -0.5 * (0.01 * x[0] ** 2 + (x[1] + 0.1 * x[0] ** 2 - 10) ** 2), [(-50, 50), (-60, 30)], [[0.0, 10.0]], 0.0),
}
# functions made of arithmetic only can also be evaluated on variables
SYMBOLIC = ("camelback", "goldstein_price", "rosenbrock", "banana_log_likelihood")


@st.composite
def objective_cases(draw):
    name = draw(st.sampled_from(sorted(FUNCTIONS)))
    _, box, optima, _ = FUNCTIONS[name]
    case = {"name": name, "form": draw(st.sampled_from(["list", "tuple", "array"]))}
    if draw(st.integers(0, 4)) == 0:
        # near an optimum
        base = draw(st.sampled_from(optima))
        case["x"] = [v + draw(st.sampled_from([0.0, 0.0, 1e-3, -1e-3, 0.02, -0.02])) for v in base]
    else:
        case["x"] = [draw(floats(lo, hi)) for lo, hi in box]
    if draw(st.integers(0, 5)) == 0:
        case["x"], case["integers"] = [float(round(v)) for v in case["x"]], True
    return case


def size_of(name, x):
    """Size of the terms whose rounding the value inherits."""
    u = max([1.0] + [abs(v) for v in x])
    return {"goldstein_price": 1e3 * u ** 8, "camelback": 10 * u ** 6, "rosenbrock": 200 * u ** 4, "branin": 2 * u ** 4 + 400,
            "bohachevski": 40 * u ** 2, "banana_log_likelihood": 2 * u ** 4 + 400}.get(name, 10.0 + 10 * u ** 2)


def run_objective(case, ctx):
    module = mod("pysgmcmc.diagnostics.objective_functions")
    name, x = case["name"], case["x"]
    definition, box, optima, best = FUNCTIONS[name]
    function = getattr(module, name)
    form = {"list": list, "tuple": tuple, "array": np.array}[case["form"]]
    given = form([int(v) for v in x] if case.get("integers") else x)
    with sut("%s(%s)" % (name, x)):
        value = float(function(given))
    require(list(given) == list(x), "%s changed its argument", name)
    want, tolerance = definition(x), 1e-13 * size_of(name, x)
    require(abs(value - want) <= tolerance, "%s(%s) is %r, its definition gives %r", name, x, value, want)
    sign = -1 if name == "banana_log_likelihood" else 1
    inside = all(lo <= v <= hi for v, (lo, hi) in zip(x, box))
    if inside:
        require(sign * value >= sign * best - 1e-7 - tolerance, "%s(%s) is %r, beyond the documented optimum %r", name, x, value, best)
    for optimum in optima:
        with sut("%s at its optimum" % name):
            at = float(function(form(optimum)))
        require(abs(at - best) <= 1e-5 * (1 + abs(best)), "%s is %r at its documented optimum %s, not %r", name, at, optimum, best)
    if sign < 0:
        with sut("to_negative_log_likelihood"):
            cost = module.to_negative_log_likelihood(function)
            negative = float(cost(given))
        require(cost.__name__ == name and negative == -value, "the cost %s of %s is %r instead of %r", cost.__name__, name, negative, -value)
    ctx.label(name, "inside the domain" if inside else "outside of the domain")
    ctx.nontrivial(inside)


@st.composite
def symbolic_cases(draw):
    name = draw(st.sampled_from(SYMBOLIC))
    return {"name": name, "dtype": draw(st.sampled_from(["float32", "float64"])),
            "x": [draw(floats(lo, hi)) for lo, hi in FUNCTIONS[name][1]]}


def run_symbolic(case, ctx):
    module = mod("pysgmcmc.diagnostics.objective_functions")
    name = case["name"]
    dtype = np.dtype(case["dtype"])
    x = [float(dtype.type(v)) for v in case["x"]]
    with tf.Graph().as_default(), tf.Session() as session:
        variables = [tf.Variable(dtype.type(v), dtype=dtype, name="x%d" % i) for i, v in enumerate(x)]
        with sut("%s of variables" % name):
            tensor = getattr(module, name)(variables)
            negative = module.to_negative_log_likelihood(getattr(module, name))(variables)
            session.run(tf.global_variables_initializer())
            value, cost = session.run([tensor, negative])
        require(np.shape(value) == () and value.dtype == dtype, "%s of %s variables is %r", name, dtype, value)
        tolerance = (1e-13 if dtype == np.float64 else 2e-5) * size_of(name, x)
        want = FUNCTIONS[name][0](x)
        require(abs(float(value) - want) <= tolerance, "%s(%s) of %s variables is %r, its definition gives %r", name, x, dtype, value, want)
        require(cost == -value, "the cost of %s is %r, the log likelihood %r", name, cost, value)
    ctx.label(name, case["dtype"])
    ctx.nontrivial()


# mixtures ------------------------------------------------------------------------------------------------------------

KNOWN = {
    "gmm1_log_likelihood": ([-5.0, 0.0, 5.0], [1.0, 1.0, 1.0], [1 / 3.0] * 3),
    "gmm2_log_likelihood": ([-5.0, 0.0, 5.0], [2.0, 0.5, 2.0], [1 / 3.0] * 3),
    "gmm3_log_likelihood": ([-5.0, 0.0, 5.0], [1 / 0.3, 0.3, 1 / 0.3], [1 / 3.0] * 3),
}


@st.composite
def mixture_cases(draw):
    case = {"function": draw(st.sampled_from(sorted(KNOWN) + ["mixture", "mixture", "defaults", "partial"]))}
    k = 3 if case["function"] == "partial" else draw(st.one_of(st.integers(1, 5), st.integers(6, 14)))
    if case["function"] in ("mixture", "partial"):
        case["mu"] = draw(st.lists(floats(-20.0, 20.0), min_size=k, max_size=k))
        case["var"] = draw(st.lists(st.one_of(floats(0.5, 10.0), st.sampled_from([0.01, 0.1, 1.0, 100.0])), min_size=k, max_size=k))
        weights = draw(st.lists(st.one_of(floats(0.1, 1.0), st.sampled_from([1.0, 0.0, 1e-3])), min_size=k, max_size=k))
        total = sum(weights)
        case["weights"] = [w / total for w in weights] if total > 0 else [1.0 / k] * k
    if case["function"] == "partial":
        case["omit"] = draw(st.lists(st.sampled_from(["mu", "var", "weights"]), unique=True, max_size=3))
    case["x"] = draw(st.one_of(floats(-12.0, 12.0), floats(-12.0, 12.0), st.sampled_from([0.0, 5.0, -5.0]), st.sampled_from([40.0, -100.0, 1e3, -1e5, 60.0])))
    case["form"] = draw(st.sampled_from(["number", "numpy", "list", "tuple", "array", "variable", "variable"]))
    case["dtype"] = draw(st.sampled_from(["float32", "float64"]))
    case["container"] = draw(st.sampled_from(["list", "tuple"]))
    case["negative"] = draw(st.booleans())
    return case


def log_density(x, mu, var, weights):
    terms = [math.log(w) - 0.5 * math.log(2 * math.pi * v) - 0.5 * (x - m) ** 2 / v for m, v, w in zip(mu, var, weights) if w > 0]
    top = max(terms)
    return top + math.log(sum(math.exp(t - top) for t in terms)), top


def run_mixture(case, ctx):
    module = mod("pysgmcmc.diagnostics.objective_functions")
    name = case["function"]
    parameters, kwargs = KNOWN.get(name, KNOWN["gmm1_log_likelihood"]), {}
    if name in KNOWN:
        function = getattr(module, name)
    else:
        function = module.gaussian_mixture_model_log_likelihood
        if name != "defaults":
            container = list if case["container"] == "list" else tuple
            given = {k: case[k] for k in ("mu", "var", "weights") if k not in case.get("omit", [])}
            kwargs = {k: container(v) for k, v in given.items()}
            parameters = [given.get(k, p) for k, p in zip(("mu", "var", "weights"), parameters)]
    symbolic = case["form"] == "variable"
    dtype = np.dtype(case["dtype"]) if symbolic or case["form"] == "numpy" else np.dtype("float64")
    x = float(dtype.type(case["x"]))
    what = "%s(%r%s) of a %s" % (name, x, ", %s" % kwargs if kwargs else "", case["form"] if not symbolic else case["dtype"] + " variable")
    if case["negative"]:
        with sut("to_negative_log_likelihood"):
            wrapped = module.to_negative_log_likelihood(function)
        require(wrapped.__name__ == function.__name__, "the cost made of %s is called %s", function.__name__, wrapped.__name__)
        function = wrapped
    if symbolic:
        with tf.Graph().as_default(), tf.Session() as session:
            variable = tf.Variable(dtype.type(x), dtype=dtype, name="x")
            with sut(what):
                tensor = function([variable], **kwargs)
                gradient = tf.gradients(tensor, variable)[0]
                session.run(tf.global_variables_initializer())
                value, slope = session.run([tensor, gradient])
            require(np.shape(value) == () and value.dtype == dtype, "%s is %r", what, value)
    else:
        argument = {"number": lambda: x, "numpy": lambda: dtype.type(x), "list": lambda: [x], "tuple": lambda: (x,), "array": lambda: np.array([x])}[case["form"]]()
        with np.errstate(divide="ignore"), sut(what):
            value = function(argument, **kwargs)
        require(np.ndim(value) == 0, "%s is %r", what, value)
    want, top = log_density(x, *parameters)
    value = -float(value) if case["negative"] else float(value)
    single = dtype == np.float32
    size = abs(want) + 1 + max(abs(x - m) * (abs(x) + abs(m)) / v for m, v in zip(parameters[0], parameters[1]))
    require(np.isfinite(value), "%s is %r, the log density is %r", what, value, want)
    require(abs(value - want) <= (3e-6 if single else 1e-13) * size, "%s is %r, the log density is %r", what, value, want)
    if symbolic:
        slopes = [(w_, m, v) for m, v, w_ in zip(*parameters) if w_ > 0]
        logs = np.array([math.log(w_) - 0.5 * math.log(2 * math.pi * v) - 0.5 * (x - m) ** 2 / v for w_, m, v in slopes])
        share = np.exp(logs - logs.max())
        share /= share.sum()
        exact = float(np.sum(share * np.array([-(x - m) / v for _, m, v in slopes])))
        exact = -exact if case["negative"] else exact
        spread = max(abs(x - m) / v for _, m, v in slopes)
        require(abs(float(slope) - exact) <= ((1e-5 if single else 1e-12) * (1 + size)) * (1 + spread), "%s has the gradient %r instead of %r", what, slope, exact)
    far = min(abs(x - m) / math.sqrt(v) for m, v in zip(parameters[0], parameters[1])) > 8
    ctx.label(name, case["form"] if not symbolic else case["dtype"] + " variable", "far" if far else "near")
    ctx.nontrivial()


@st.composite
def sinc_cases(draw):
    d = draw(st.integers(1, 4))
    if draw(st.integers(0, 9)) == 0:
        n, d = draw(st.integers(40, 300)), draw(st.integers(1, 12))
        values = np.random.RandomState(draw(st.integers(0, 1000))).uniform(-2, 3, size=(n, d))
        return {"x": np.round(values, 3).tolist(), "d": d}
    n = draw(st.integers(0, 6))
    value = st.one_of(floats(-2.0, 3.0), st.sampled_from([0.5, 0.6, 0.0]))
    return {"x": draw(st.lists(st.lists(value, min_size=d, max_size=d), min_size=n, max_size=n)), "d": d}


def run_sinc(case, ctx):
    module = mod("pysgmcmc.diagnostics.objective_functions")
    x = np.array(case["x"], "float64").reshape(-1, case["d"])
    with sut("sinc"):
        value = np.asarray(module.sinc(x))

    def one(v):
        t = math.pi * (10 * v - 5)
        return 1.0 if t == 0 else math.sin(t) / t
    want = np.array([sum(one(v) for v in row) for row in x])
    require(value.shape == (len(x),), "sinc of %d points has shape %s", len(x), value.shape)
    require(np.all(np.abs(value - want) <= 1e-12), "sinc(%s) is %s, its definition gives %s", x, value, want)
    ctx.nontrivial(len(x) > 0)


@st.composite
def wrapper_cases(draw):
    return {"name": draw(st.sampled_from(["f", "log_likelihood", "g2"])), "args": draw(st.lists(floats(-5.0, 5.0), min_size=1, max_size=4)),
            "kwargs": draw(st.dictionaries(st.sampled_from(["a", "b", "c"]), floats(-5.0, 5.0), max_size=3)), "array": draw(st.booleans())}


def run_wrapper(case, ctx):
    module = mod("pysgmcmc.diagnostics.objective_functions")
    calls = []

    def function(*args, **kwargs):
        calls.append((args, kwargs))
        total = sum(args) + sum((i + 2) * v for i, (_, v) in enumerate(sorted(kwargs.items())))
        return np.array([total, 1.0]) if case["array"] else total
    function.__name__ = case["name"]
    with sut("to_negative_log_likelihood"):
        cost = module.to_negative_log_likelihood(function)
        got = [cost(*case["args"], **case["kwargs"]) for _ in range(2)]
    want = function(*case["args"], **case["kwargs"])
    require(cost.__name__ == case["name"], "the cost is called %s instead of %s", cost.__name__, case["name"])
    require(all(np.array_equal(g, -np.asarray(want)) for g in got), "the cost is %s where the log likelihood is %s", got, want)
    require(all(c == (tuple(case["args"]), case["kwargs"]) for c in calls), "the log likelihood was called with %s", calls)
    ctx.nontrivial()


CHECKS = {
    "C34": lambda: ([
        Part("objectives", objective_cases(), run_objective, 3000, 100000),
        Part("variables", symbolic_cases(), run_symbolic, 120, 2000),
        Part("mixtures", mixture_cases(), run_mixture, 700, 15000),
        Part("sinc", sinc_cases(), run_sinc, 300, 5000),
        Part("wrapper", wrapper_cases(), run_wrapper, 300, 3000)],
        "functions x points; non-trivial: a point of the function's usual domain (others: every case)",
        ["reference definitions are those of the literature in the form HPOlib has them (hartmann3 with 0.1090)", "mixture: at most 14 components, |x| up to 1e5"]),
}
