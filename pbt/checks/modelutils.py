"""C24-C26: normalisation, model bookkeeping and priors."""
import json

import numpy as np
from hypothesis import strategies as st

from pbt.core import Part, Violation, require, sut
from pbt.shims import tf
from pbt.util import floats, mod, same

# C24 ------------------------------------------------------------------------------------------------------------------

@st.composite
def tables(draw, min_rows=2, max_rows=12):
    """2-d or 1-d data without constant columns; column = offset + scale * spread-out values."""
    n = draw(st.integers(min_rows, max_rows))
    d = draw(st.integers(0, 4))      # 0: one-dimensional
    columns = []
    for _ in range(max(d, 1)):
        offset = draw(st.sampled_from([0.0, 0.0, 1.0, -3.0, 100.0, -1e4]))
        scale = draw(st.sampled_from([1.0, 1.0, 1e-3, 10.0, 1e4, 1e-8])) if abs(offset) < 10 else 1.0
        values = draw(st.lists(st.integers(-50, 50), min_size=n, max_size=n).filter(lambda v: len(set(v)) > 1))
        columns.append([offset + scale * v for v in values])
    return {"d": d, "columns": columns, "dtype": draw(st.sampled_from(["float64", "float64", "float32", "int64"])),
            "layout": draw(st.sampled_from(["plain", "fortran", "readonly", "strided"]))}


@st.composite
def large_tables(draw):
    """Many rows and columns, generated from a seed."""
    n, d = draw(st.one_of(st.integers(2, 60), st.integers(100, 4000))), draw(st.integers(0, 40))
    return {"d": d, "random": [draw(st.integers(0, 10000)), n, draw(st.sampled_from(["normal", "integers", "skewed", "offset"]))],
            "dtype": draw(st.sampled_from(["float64", "float64", "float32", "int64"])),
            "layout": draw(st.sampled_from(["plain", "fortran", "readonly", "strided"]))}


def random_table(case):
    seed, n, kind = case["random"]
    rng, shape = np.random.RandomState(seed), (n, max(case["d"], 1))
    if kind == "integers":
        x = rng.randint(-50, 51, shape).astype("float64")
    else:
        x = rng.normal(size=shape) * 10.0 ** rng.randint(-1, 3, shape[1])
        if kind == "skewed":
            x = np.exp(x / 50)
        elif kind == "offset":
            x = 3 * x + rng.randint(-40, 40, shape[1])
    x[0], x[1] = x[0].round(2) + 10.0, x[0].round(2) - 11.0     # not constant, whatever the type
    return x


def table(case):
    x = random_table(case) if "random" in case else np.array(case["columns"]).T
    if case["d"] == 0:
        x = x[:, 0]
    dtype = np.dtype(case["dtype"])
    y = np.round(x).astype(dtype) if dtype.kind == "i" else x.astype(dtype)
    if len(y.shape) == 1 and len(set(y)) == 1 or len(y.shape) == 2 and any(len(set(c)) == 1 for c in y.T):
        y = x       # rounded to a constant
    if case["layout"] == "fortran":
        y = np.asfortranarray(y)
    elif case["layout"] == "strided":
        big = np.repeat(y, 2, axis=0)
        y = big[::2]
    if case["layout"] == "readonly":
        y.flags.writeable = False
    return y


@st.composite
def c24_cases(draw, data=tables()):
    case = draw(data)
    case["kind"] = draw(st.sampled_from(["zero_one", "zero_mean_unit_var"]))
    case["given"] = draw(st.sampled_from(["none", "none", "first", "second", "both"]))
    width = max(case["d"], 1)
    stat = lambda element: st.one_of(st.lists(element, min_size=width, max_size=width), element)
    case["first"] = draw(stat(st.sampled_from([0.0, 0.0, 0, 1.0, -2.5, 30.0])))
    case["second"] = draw(stat(st.sampled_from([1.0, 1, 2.0, 0.5, 40.0, 100.0])))
    case["other_rows"] = draw(st.integers(1, 4))
    return case


def as_statistic(value, case):
    if isinstance(value, list):
        return np.array(value) if case["d"] else float(value[0])
    return value


def run_c24(case, ctx):
    m = mod("pysgmcmc.models.base_model")
    x = table(case)
    before = x.copy()
    if case["kind"] == "zero_one":
        normalize, back = m.zero_one_normalization, m.zero_one_unnormalization
        names, defaults = ("lower", "upper"), (np.min(x, axis=0), np.max(x, axis=0))
    else:
        normalize, back = m.zero_mean_unit_var_normalization, m.zero_mean_unit_var_unnormalization
        wide = x.astype("float64")
        names, defaults = ("mean", "std"), (np.mean(wide, axis=0), np.std(wide, axis=0))
    given = {}
    if case["given"] in ("first", "both"):
        given[names[0]] = as_statistic(case["first"], case)
    if case["given"] in ("second", "both"):
        given[names[1]] = as_statistic(case["second"], case)
    expected = [np.asarray(given.get(name, default), "float64") for name, default in zip(names, defaults)]
    if case["kind"] == "zero_one" and np.any(expected[1] - expected[0] == 0):
        given, expected = {}, [np.asarray(v, "float64") for v in defaults]
    copies = {k: np.array(v) for k, v in given.items()}
    with sut("normalising"):
        normalized, first, second = normalize(x, **given)
    eps = 1e-5 if x.dtype == np.float32 else 1e-12
    scale = np.max(np.abs(x.astype("float64"))) + np.max(np.abs(expected[0])) + np.max(np.abs(expected[1]))
    for name, got, want in zip(names, (first, second), expected):
        if name in given:
            require(np.array_equal(np.asarray(got), np.asarray(given[name])), "%s=%s was given, but %s was returned", name, given[name], got)
        else:
            require(np.shape(got) == x.shape[1:] and np.all(np.abs(np.asarray(got, "float64") - want) <= eps * scale),
                    "%s is returned as %s, the data has %s", name, got, want)
    a, b = expected
    span = b - a if case["kind"] == "zero_one" else b
    want = (x.astype("float64") - a) / span
    require(normalized.shape == x.shape, "normalised data has shape %s instead of %s", normalized.shape, x.shape)
    error = eps * (scale / np.min(np.abs(span))) * (1 + np.max(np.abs(want)))
    require(np.all(np.abs(np.asarray(normalized, "float64") - want) <= error), "normalised data is %s, not %s", normalized, want)
    if not given:
        if case["kind"] == "zero_one":
            require(np.all(normalized >= -error) and np.all(normalized <= 1 + error)
                    and np.all(np.abs(normalized.min(axis=0)) <= error) and np.all(np.abs(normalized.max(axis=0) - 1) <= error),
                    "columns are not mapped onto [0, 1]: %s", normalized)
        else:
            require(np.all(np.abs(normalized.astype("float64").mean(axis=0)) <= error)
                    and np.all(np.abs(normalized.astype("float64").std(axis=0) - 1) <= error),
                    "columns do not have mean 0 and standard deviation 1: %s", normalized)
    kept = np.array(normalized)
    with sut("un-normalising"):
        restored = back(normalized, first, second)
    require(np.shape(restored) == x.shape and np.all(np.abs(np.asarray(restored, "float64") - x) <= 10 * eps * scale * (1 + np.max(np.abs(want)))),
            "un-normalised data is %s, the original %s", restored, before)
    # other values by the same statistics
    other = np.linspace(-2, 3, case["other_rows"] * max(case["d"], 1)).reshape((case["other_rows"],) + x.shape[1:])
    with sut("un-normalising"):
        mapped = back(other, first, second)
    with sut("normalising"):
        again = normalize(mapped, first, second)[0]
    require(np.all(np.abs(again - other) <= 100 * error + 1e-9), "values %s un-normalised and normalised by the same statistics give %s", other, again)
    require(same(x, before), "the data was modified from %s to %s", before, x)
    require(same(kept, normalized), "un-normalising modified its input")
    for k, v in given.items():
        require(np.array_equal(np.asarray(v), copies[k]), "the statistic %s was modified", k)
    # treating other data of the same form changes none of these results
    results = [normalized, first, second, restored, mapped]
    kept = [np.array(r) for r in results]
    with sut("normalising"):
        more = normalize((before[::-1] * 2 + 1).astype(before.dtype), **given)
        back(np.asarray(more[0])[::-1].copy(), more[1], more[2])
    require(all(same(np.asarray(r), k) for r, k in zip(results, kept)), "normalising other data changed earlier results: %s became %s", kept, results)
    ctx.label(case["kind"], "given: " + (", ".join(sorted(given)) or "nothing"), "%d-d" % x.ndim)
    ctx.nontrivial(x.size > 2)


# C25 ------------------------------------------------------------------------------------------------------------------

def recorder():
    base = mod("pysgmcmc.models.base_model").BaseModel

    class Model(base):
        def __init__(self):
            super().__init__()
            self.calls = []

        def train(self, X, y):
            self.calls.append((np.array(X), np.array(y), X, y))
            self.X, self.y = X, y

        def predict(self, X_test):
            return X_test
    return Model()


@st.composite
def c25_cases(draw):
    d = draw(st.integers(1, 3))
    blocks = []
    values = st.one_of(st.integers(-5, 5).map(float), floats(-100, 100), st.sampled_from([1e-300, -1e300, 0.1]))
    for _ in range(draw(st.integers(1, 5))):
        n = draw(st.integers(1, 5))
        rows = draw(st.lists(st.lists(values, min_size=d, max_size=d), min_size=n, max_size=n))
        blocks.append([rows, draw(st.lists(values, min_size=n, max_size=n))])
    return {"blocks": blocks, "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "column": draw(st.integers(0, 3)) == 0}


@st.composite
def c25_long_cases(draw):
    """Histories of many blocks of different sizes, generated from a seed."""
    sizes = draw(st.lists(st.one_of(st.integers(1, 4), st.integers(1, 300)), min_size=2, max_size=40))
    return {"random": [draw(st.integers(0, 10000)), draw(st.integers(1, 12)), draw(st.booleans())], "sizes": sizes,
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "column": draw(st.integers(0, 3)) == 0}


def random_blocks(case):
    seed, d, ties = case["random"]
    rng = np.random.RandomState(seed)
    for n in case["sizes"]:
        yield rng.normal(size=(n, d)), rng.randint(-6, 7, n) if ties else rng.normal(size=n) * 10.0 ** rng.randint(-3, 4)


def run_c25(case, ctx):
    with sut("creating a model"):
        model = recorder()
    with sut("get_json_data"):
        empty = model.get_json_data()
    require(empty["X"] is None and empty["y"] is None and isinstance(empty, dict), "JSON form of an untrained model is %s", empty)
    arrays = []
    for rows, labels in random_blocks(case) if "random" in case else case["blocks"]:
        with np.errstate(over="ignore"):
            x, y = np.array(rows, case["dtype"]), np.array(labels, case["dtype"])
        arrays.append((x, y[:, None] if case["column"] else y))
    copies = [(x.copy(), y.copy()) for x, y in arrays]
    for k, (x, y) in enumerate(arrays):
        with sut("train" if k == 0 else "update"):
            model.train(x, y) if k == 0 else model.update(x, y)
        require(len(model.calls) == k + 1, "update number %d trained %d times", k, len(model.calls) - k)
        want_x = np.concatenate([c[0] for c in copies[:k + 1]])
        want_y = np.concatenate([c[1] for c in copies[:k + 1]])
        got_x, got_y = model.calls[-1][:2]
        require(same(got_x, want_x) and same(got_y, want_y), "update %d trains on %s, %s instead of %s, %s", k, got_x, got_y, want_x, want_y)
        for (a, b), (c, d) in zip(arrays, copies):
            require(same(a, c) and same(b, d), "update %d modified the caller's data", k)
        for a, b, c, d in model.calls:
            require(same(a, c) and same(b, d), "update %d modified data of an earlier training", k)
        if not case["column"]:
            with sut("get_incumbent"):
                point, value = model.get_incumbent()
            require(np.shape(point) == (want_x.shape[1],) and np.shape(value) == () and value == np.min(want_y)
                    and any(np.array_equal(point, row) and value == label for row, label in zip(want_x, want_y)),
                    "incumbent %s with value %s for data %s with labels %s", point, value, want_x, want_y)
        with sut("get_json_data"):
            data = json.loads(json.dumps(model.get_json_data()))
        require(same(np.array(data["X"], want_x.dtype), want_x) and same(np.array(data["y"], want_y.dtype), want_y),
                "the JSON form has data %s, %s instead of %s, %s", data["X"], data["y"], want_x, want_y)
        require("hyperparameters" in data, "the JSON form has no hyperparameters: %s", data)
    ctx.label("%d updates" % (len(arrays) - 1))
    ctx.nontrivial(len(arrays) > 1)


@st.composite
def shape_cases(draw):
    shape = st.one_of(st.tuples(st.integers(0, 4), st.integers(0, 3)), st.lists(st.integers(0, 4), max_size=4).map(tuple))
    x = draw(shape)
    rows = x[0] if x else 0
    y = draw(st.one_of(st.just((rows,)), st.just((rows,)), st.just((rows + 1,)), st.just((rows, 1)), shape))
    return {"x": list(x), "y": list(y), "which": draw(st.sampled_from(["train", "predict"])), "extra": draw(st.booleans())}


def run_shapes(case, ctx):
    base = mod("pysgmcmc.models.base_model").BaseModel
    seen = []

    class Model(base):
        @base._check_shapes_train
        def train(self, X, y, *args, **kwargs):
            seen.append((self, X, y, args, kwargs))
            return "trained"

        @base._check_shapes_predict
        def predict(self, X, *args, **kwargs):
            seen.append((self, X, args, kwargs))
            return "predicted"

    with sut("creating a model"):
        model = Model()
    x, y = np.zeros(case["x"]), np.zeros(case["y"])
    args, kwargs = ((1,), {"key": 2}) if case["extra"] else ((), {})
    if case["which"] == "train":
        valid = x.ndim == 2 and y.ndim == 1 and len(x) == len(y)
        inputs = (x, y)
    else:
        valid, inputs = x.ndim == 2, (x,)
    try:
        with sut(case["which"], allow=(AssertionError, IndexError)):
            result = getattr(model, case["which"])(*(inputs + args), **kwargs)
    except (AssertionError, IndexError) as e:
        require(not valid, "%s rejects valid shapes %s, %s: %r", case["which"], x.shape, y.shape, e)
        require(not seen, "%s was called in spite of invalid shapes", case["which"])
        require(isinstance(e, AssertionError) or x.ndim == 0 or y.ndim == 0, "invalid shapes %s, %s give %r", x.shape, y.shape, e)
    else:
        require(valid, "%s accepts shapes %s, %s", case["which"], x.shape, y.shape)
        require(result == ("trained" if case["which"] == "train" else "predicted"), "the wrapped method's result became %r", result)
        require(len(seen) == 1 and seen[0][0] is model and all(a is b for a, b in zip(seen[0][1:], inputs)) and seen[0][-2:] == (args, kwargs),
                "the wrapped method was called with other arguments: %s", seen)
    ctx.label("valid" if valid else "invalid")
    ctx.nontrivial()


# C26 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c26_variance_cases(draw, large=False):
    rows, columns = draw(st.integers(1, 8)), draw(st.sampled_from([1, 1, 1, 2, 3]))
    values = st.one_of(floats(-20, 10), floats(-20, 10), floats(-100, 100), floats(-1e6, 1e6))
    case = {"log_var": draw(st.lists(st.lists(values, min_size=columns, max_size=columns), min_size=rows, max_size=rows)),
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"])),
            "variable": draw(st.booleans())}
    if large:
        case["log_var"] = [draw(st.integers(1, 2000)), columns, draw(st.integers(0, 10000))]
    case["mean"] = draw(st.one_of(st.none(), st.sampled_from([1e-6, 1e-3, 1.0, 0.01, 5.0]), floats(-30, 30).map(lambda p: 10.0 ** p)))
    case["var"] = draw(st.one_of(st.none(), st.sampled_from([0.01, 1.0, 0.1, 2.0, 10.0]), floats(-4, 4).map(lambda p: 10.0 ** p)))
    return case


def run_c26_variance(case, ctx):
    m = mod("pysgmcmc.models.bayesian_neural_network")
    dtype = np.dtype(case["dtype"])
    values = np.array(case["log_var"], dtype)
    if values.ndim == 1:        # large: numbers of rows and columns, seed
        rows, columns, seed = case["log_var"]
        values = np.random.RandomState(seed).uniform(-20, 10, (rows, columns)).astype(dtype)
    kwargs = {k: case[k] for k in ("mean", "var") if case[k] is not None}
    if case["dtype"] != "float64":
        kwargs["dtype"] = tf.as_dtype(dtype)
    with tf.Graph().as_default(), tf.Session() as session:
        tensor = tf.Variable(values) if case["variable"] else tf.constant(values)
        with sut("log_variance_prior_log_like"):
            result = m.log_variance_prior_log_like(tensor, **kwargs)
        session.run(tf.global_variables_initializer())
        with sut("evaluating the prior"):
            got = session.run(result)
    mean, var = kwargs.get("mean", 1e-6), kwargs.get("var", 0.01)
    terms = -(values.astype("float64") - np.log(mean)) ** 2 / (2 * var)
    rows = np.sum(terms - 0.5 * np.log(var), axis=1)
    size = np.mean(np.sum(np.abs(terms) + abs(np.log(var)) + np.log(mean) ** 2 / var, axis=1))
    want = np.mean(rows)
    require(np.shape(got) == () and np.asarray(got).dtype == dtype, "the prior's value is %r", got)
    require(abs(got - want) <= (1e-11 if dtype == "float64" else 1e-4) * size + 1e-12, "prior of %s with %s is %r, the formula gives %r", case["log_var"], kwargs, got, want)
    ctx.label("%d column(s)" % values.shape[1])
    ctx.nontrivial(len(values) > 1 or bool(kwargs))


@st.composite
def c26_weight_cases(draw, large=False):
    if large:
        dimension = st.one_of(st.integers(1, 8), st.integers(1, 60))
        return {"shapes": draw(st.lists(st.lists(dimension, max_size=3), min_size=1, max_size=30)), "values": draw(st.integers(0, 10000)),
                "wdecay": draw(st.one_of(st.none(), st.sampled_from([1.0, 0.5, 3.0]))),
                "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "constants": draw(st.booleans())}
    shapes = draw(st.lists(st.sampled_from([[], [1], [2], [3, 2], [1, 4], [2, 1, 2], [5]]), min_size=1, max_size=5))
    n = sum(int(np.prod(s, dtype=int)) for s in shapes)
    return {"shapes": shapes, "values": draw(st.lists(st.one_of(floats(-10, 10), floats(-10, 10), floats(-1e6, 1e6)), min_size=n, max_size=n)),
            "wdecay": draw(st.one_of(st.none(), st.sampled_from([1.0, 0.0, 0.5, 2.0, 1e-3, 10.0]), floats(-8, 8).map(lambda p: 10.0 ** p))),
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "constants": draw(st.booleans())}


def run_c26_weights(case, ctx):
    m = mod("pysgmcmc.models.bayesian_neural_network")
    dtype = np.dtype(case["dtype"])
    kwargs = {} if case["wdecay"] is None else {"wdecay": case["wdecay"]}
    if case["dtype"] != "float64":
        kwargs["dtype"] = tf.as_dtype(dtype)
    if isinstance(case["values"], int):
        n = sum(int(np.prod(s, dtype=int)) for s in case["shapes"])
        values = np.random.RandomState(case["values"]).uniform(-3, 3, n).astype(dtype)
    else:
        values = np.array(case["values"], dtype)
    offset, parts = 0, []
    for shape in case["shapes"]:
        size = int(np.prod(shape, dtype=int))
        parts.append(values[offset:offset + size].reshape(shape))
        offset += size
    with tf.Graph().as_default(), tf.Session() as session:
        params = [tf.constant(p) if case["constants"] else tf.Variable(p) for p in parts]
        with sut("weight_prior_log_like"):
            result = m.weight_prior_log_like(params, **kwargs)
        session.run(tf.global_variables_initializer())
        with sut("evaluating the prior"):
            got = session.run(result)
    want = -0.5 * kwargs.get("wdecay", 1.0) * np.sum(values.astype("float64") ** 2) / len(values)
    require(np.shape(got) == () and np.asarray(got).dtype == dtype, "the prior's value is %r", got)
    require(abs(got - want) <= (1e-11 if dtype == "float64" else 1e-4) * (abs(want) + 1e-9), "weight prior of %s with %s is %r, the formula gives %r",
            case["values"], kwargs, got, want)
    ctx.label("%d parameter(s)" % len(parts))
    ctx.nontrivial(len(values) > 1)


CHECKS = {
    "C24": lambda: ([Part("normalise", c24_cases(), run_c24, 900, 20000), Part("large", c24_cases(large_tables()), run_c24, 200, 4000)],
                    "tables without constant columns x statistics given or not; non-trivial: more than two elements", []),
    "C25": lambda: ([Part("updates", c25_cases(), run_c25, 300, 8000), Part("long", c25_long_cases(), run_c25, 40, 800), Part("shapes", shape_cases(), run_shapes, 300, 5000)],
                    "sequences of data blocks; non-trivial: at least one update / any shape", []),
    "C26": lambda: ([Part("variance", c26_variance_cases(), run_c26_variance, 200, 4000), Part("weights", c26_weight_cases(), run_c26_weights, 200, 4000),
                     Part("many rows", c26_variance_cases(True), run_c26_variance, 60, 1200), Part("many weights", c26_weight_cases(True), run_c26_weights, 60, 1200)],
                    "values x parameters of the prior; non-trivial: more than one row or given parameters / more than one weight", []),
}
