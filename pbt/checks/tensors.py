"""C05-C09: tensor utilities."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import distance

from pbt.core import Part, Skip, require, sut
from pbt.shims import tf
from pbt.util import floats, mod, same, seeds32

UTILS = "pysgmcmc.tensor_utils"


class Graph(object):
    """A fresh graph with a session."""

    def __enter__(self):
        self.graph = tf.Graph()
        self.context = self.graph.as_default()
        self.context.__enter__()
        self.session = tf.Session(graph=self.graph)
        return self.session

    def __exit__(self, *args):
        self.session.close()
        return self.context.__exit__(*args)


# C05 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c05_cases(draw, large=False):
    shape = draw(st.lists(st.sampled_from([1, 2, 3, 4, 5, 7]), max_size=4))
    if draw(st.integers(0, 9)) == 0 and shape:
        shape[draw(st.integers(0, len(shape) - 1))] = 0
    if large:
        shape[:] = draw(st.sampled_from([[150], [1000], [20, 33], [33, 20], [300, 300], [70000], [1, 257, 1], [16, 16, 17], [9, 8, 7, 6], [2] * 7]))
    return {"shape": shape, "dtype": draw(st.sampled_from(["float64", "float32", "float16", "int32", "int64", "bool", "complex64", "complex128", "uint8"])),
            "kind": draw(st.sampled_from(["constant", "computed", "placeholder", "variable", "variable", "assigned"])),
            "start": draw(st.integers(-50, 50)), "shape_as": draw(st.sampled_from(["TensorShape", "list", "tuple"]))}


def run_c05(case, ctx):
    m = mod(UTILS)
    dtype = np.dtype(case["dtype"])
    shape = tuple(case["shape"])
    size = int(np.prod(shape, dtype=int))
    values = (np.arange(size) * 3 + case["start"])
    values = (values % 2 == 0) if dtype == bool else values
    values = values.reshape(shape).astype(dtype)
    kind = case["kind"]
    column = values.reshape(-1, 1)
    with Graph() as session:
        feed = {}
        if kind == "constant":
            tensor = tf.constant(values, dtype=dtype)
        elif kind == "computed":
            tensor = tf.reverse(tf.constant(values[::-1] if shape else values, dtype=dtype), [0]) if shape else tf.identity(tf.constant(values))
        elif kind == "placeholder":
            tensor = tf.placeholder(dtype, shape=shape)
            feed[tensor] = values
        elif kind == "variable":
            tensor = tf.Variable(values, dtype=dtype)
        else:
            tensor = tf.Variable(np.zeros(shape, dtype), dtype=dtype)
        if kind == "assigned":
            session.run(tensor.initializer)
            session.run(tf.assign(tensor, values))
        with sut("vectorize"):
            vec = m.vectorize(tensor)
        is_variable = kind in ("variable", "assigned")
        require(isinstance(vec, tf.Variable) == is_variable, "vectorize returned a %s", type(vec).__name__)
        if is_variable:
            require(vec is not tensor, "vectorize returned the variable itself")
            if kind == "variable":
                session.run(tensor.initializer)
            session.run(vec.initializer)
        with sut("evaluating"):
            require(vec.shape.as_list() == [size, 1], "static shape %s", vec.shape)
            got = session.run(vec, feed)
        require(same(got, column), "vectorised %s: %r instead of %r", kind, got.tolist(), column.tolist())
        target = {"TensorShape": tensor.shape, "list": list(shape), "tuple": shape}[case["shape_as"]]
        with sut("unvectorize"):
            back = m.unvectorize(vec, original_shape=target)
            got = session.run(back, feed)
            require(back.shape.as_list() == list(shape), "static shape %s", back.shape)
        require(same(got, values), "round trip gives %r instead of %r", got.tolist(), values.tolist())
        if is_variable and size:
            changed = np.roll(~column if dtype == bool else column + dtype.type(1), 1)
            session.run(tf.assign(vec, changed))
            require(same(session.run(tensor), values), "changing the vectorised variable changes the original")
            session.run(tf.assign(tensor, np.zeros(shape, dtype)))
            require(same(session.run(vec), changed), "changing the original changes the vectorised variable")
    ctx.label(kind, "rank %d" % len(shape))
    ctx.nontrivial(size > 1)


BAD_INPUTS = {"list": lambda: [1.0], "nested": lambda: [[1.0], [2.0]], "array": lambda: np.ones((2, 2)), "float": lambda: 1.0,
              "int": lambda: 3, "none": lambda: None, "string": lambda: "abc", "dict": lambda: {}, "tuple": lambda: (1.0, 2.0),
              "npscalar": lambda: np.float64(3), "empty": lambda: [],
              "tensors": lambda: [tf.constant(1.0)], "shape": lambda: tf.TensorShape([2])}


def run_c05_bad(case, ctx):
    m = mod(UTILS)
    with Graph():
        value = BAD_INPUTS[case["input"]]()
        try:
            with sut("vectorize", allow=(ValueError,)):
                m.vectorize(value)
        except ValueError:
            pass
        else:
            require(False, "vectorize accepted %r", case["input"])
    ctx.nontrivial()


# C06 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c06_cases(draw, large=False):
    rank = draw(st.integers(0, 3))
    shape = [draw(st.integers(1, 6)) for _ in range(rank)]
    if rank == 1:
        shape = [draw(st.integers(1, 40))]
    if large:
        shape = draw(st.sampled_from([[1000], [1001], [33, 32], [31, 33], [4, 5, 6, 7], [3, 5, 7, 9], [20000], [19999], [2, 3, 4, 5, 6]]))
    size = int(np.prod(shape, dtype=int))
    big = draw(st.sampled_from([10.0, 1.0, 1e4, 1e30, 1e-30]))
    pool = draw(st.sampled_from(["free", "few"]))
    if pool == "few":
        few = draw(st.lists(floats(-big, big), min_size=1, max_size=3))
        element = st.sampled_from(few)
    else:
        element = floats(-big, big)
    dtype = draw(st.sampled_from(["float64", "float32"]))
    if big == 1e-30:
        hi, lo = (300, -290) if dtype == "float64" else (37, -30)
        element = st.one_of(signed(magnitude(lo, hi)), st.sampled_from([float("inf"), float("-inf"), 0.0, 1.0]))
    if large:
        values = np.random.RandomState(draw(seeds32)).permutation(np.resize(draw(st.lists(element, min_size=1, max_size=30)), size))
        values = (values + np.arange(size) % draw(st.sampled_from([1, 7, 10 ** 6]))).tolist()
    else:
        values = draw(st.lists(element, min_size=size, max_size=size))
    order = draw(st.sampled_from(["none", "none", "up", "down"]))
    if order != "none":
        values = sorted(values, reverse=order == "down")
    return {"shape": shape, "values": values, "dtype": dtype, "variable": draw(st.booleans())}


def run_c06(case, ctx):
    m = mod(UTILS)
    values = np.asarray(case["values"], dtype=case["dtype"]).reshape(case["shape"])
    flat = sorted(values.reshape(-1).tolist())
    k = len(flat)
    dtype = values.dtype.type
    np.seterr(all="ignore")
    want = dtype(flat[k // 2]) if k % 2 else (dtype(flat[k // 2 - 1]) + dtype(flat[k // 2])) / dtype(2)
    with Graph() as session:
        tensor = tf.Variable(values) if case["variable"] else tf.constant(values)
        session.run(tf.global_variables_initializer())
        with sut("median"):
            result = m.median(tensor)
            got = np.asarray(session.run(result))
    require(got.shape == () and got.dtype == values.dtype, "median has shape %s and type %s", got.shape, got.dtype)
    eps = np.finfo(dtype).eps
    ctx.label("odd" if k % 2 else "even", "ties" if len(set(flat)) < k else "distinct")
    ctx.nontrivial(k > 2 and len(set(flat)) > 1)
    if not np.isfinite(want):
        if np.isfinite(flat[k // 2]) and np.isfinite(flat[k // 2 - 1]):
            raise Skip()                                # the sum of the two overflows
        require(same(got, np.asarray(want)) or (np.isnan(got) and np.isnan(want)), "median of %s is %r, not %r", flat, float(got), float(want))
        return
    require(abs(float(got) - float(want)) <= 4 * eps * abs(float(want)) + (4 * eps * max(abs(flat[k // 2]), abs(flat[k // 2 - 1])) if k % 2 == 0 else 0),
            "median of %s is %r, not %r", flat, float(got), float(want))
    if k % 2:
        require(float(got) == float(want), "median of %s is %r, not %r", flat, float(got), float(want))


# C07 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c07_pdist_cases(draw, large=False):
    n, d = draw(st.integers(2, 9)), draw(st.integers(0, 5))
    scale = draw(st.sampled_from([10.0, 1.0, 1000.0, None]))
    element = signed(magnitude(-8, 8)) if scale is None else floats(-scale, scale)
    if large:
        n, d = draw(st.sampled_from([(12, 40), (25, 3), (40, 1), (30, 2), (2, 500), (3, 129)]))
        pool = draw(st.lists(element, min_size=3, max_size=20))
        values = np.random.RandomState(draw(seeds32)).choice(pool, size=(n, d)).tolist()
    else:
        values = draw(st.lists(st.lists(element, min_size=d, max_size=d), min_size=n, max_size=n))
    if draw(st.integers(0, 4)) == 0:
        values[-1] = list(values[0])
    return {"points": values, "d": d, "dtype": draw(st.sampled_from(["float64", "float32"])),
            "variable": draw(st.booleans()), "metric": draw(st.booleans())}


def run_c07_pdist(case, ctx):
    m = mod(UTILS)
    points = np.asarray(case["points"], dtype=case["dtype"]).reshape(len(case["points"]), case["d"])
    n = len(points)
    want = distance.pdist(points.astype("float64")) if case["d"] else np.zeros(n * (n - 1) // 2)
    square = np.zeros((n, n))
    square[np.triu_indices(n, 1)] = want
    square += square.T
    with Graph() as session:
        tensor = tf.Variable(points) if case["variable"] else tf.constant(points)
        session.run(tf.global_variables_initializer())
        with sut("pdist"):
            condensed = m.pdist(tensor, metric="euclidean") if case["metric"] else m.pdist(tensor)
            got, got_square = session.run([condensed, m.squareform(condensed)])
    check_close("pdist", got, want, points.dtype)
    check_close("squareform(pdist)", got_square, square, points.dtype)
    ctx.label("n=%d" % min(n, 5), "d=%d" % min(case["d"], 3))
    ctx.nontrivial(n > 2 and case["d"] > 0)


def check_close(what, got, want, dtype):
    require(got.dtype == dtype, "%s has type %s instead of %s", what, got.dtype, dtype)
    require(got.shape == want.shape, "%s has shape %s instead of %s", what, got.shape, want.shape)
    rtol = 1e-5 if dtype == np.float32 else 1e-12
    require(np.all(np.abs(got - want) <= rtol * np.abs(want)), "%s is\n%r instead of\n%r", what, got, want)


@st.composite
def c07_square_cases(draw):
    dtype = draw(st.sampled_from(["float64", "float32", "int32", "int64"]))
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 45)))
    size = n * (n - 1) // 2
    if draw(st.booleans()):
        size = draw(st.one_of(st.integers(0, 40), st.sampled_from([size + 1, max(size - 1, 0), size + n // 2, n * n])))
    element = st.integers(-100, 100) if dtype.startswith("int") else floats(-1000.0, 1000.0)
    vector = draw(st.lists(element, min_size=min(size, 40), max_size=min(size, 40)))
    return {"vector": [vector[i % 40] + i // 40 for i in range(size)], "dtype": dtype}


def run_c07_square(case, ctx):
    m = mod(UTILS)
    vector = np.asarray(case["vector"], dtype=case["dtype"])
    size = len(vector)
    valid = {k * (k - 1) // 2: k for k in range(1, 60)}
    with Graph() as session:
        tensor = tf.constant(vector)
        if size not in valid:
            try:
                with sut("squareform", allow=(ValueError,)):
                    m.squareform(tensor)
            except ValueError:
                pass
            else:
                require(False, "squareform accepted a vector of length %d", size)
            ctx.label("invalid length")
        else:
            n = valid[size]
            want = np.zeros((n, n), dtype=vector.dtype)
            want[np.triu_indices(n, 1)] = vector
            want = want + want.T
            with sut("squareform"):
                got = session.run(m.squareform(tensor))
            require(got.dtype == vector.dtype and got.shape == want.shape, "squareform: %s %s", got.dtype, got.shape)
            require(np.array_equal(got, want), "squareform(%s) is\n%r instead of\n%r", vector.tolist(), got, want)
            ctx.label("n=%d" % min(n, 5))
    ctx.nontrivial(size > 1)


@st.composite
def c07_reject_cases(draw):
    what = draw(st.sampled_from(["pdist rank", "pdist metric", "squareform rank"]))
    rank = draw(st.sampled_from([1, 3, 4])) if what == "pdist rank" else 2 if what == "pdist metric" else draw(st.sampled_from([2, 3]))
    return {"what": what, "shape": [draw(st.integers(2, 4)) for _ in range(rank)], "dtype": draw(st.sampled_from(["float64", "float32"])),
            "metric": draw(st.one_of(st.sampled_from(["cityblock", "cosine", "sqeuclidean", "minkowski", "euclid", "", "Euclidean", "euclidean "]),
                                     st.integers(0, 3), st.none(), st.text(max_size=5))),
            "variable": draw(st.booleans())}


def run_c07_reject(case, ctx):
    m = mod(UTILS)
    with Graph():
        value = np.arange(np.prod(case["shape"]), dtype=case["dtype"]).reshape(case["shape"])
        tensor = tf.Variable(value) if case["variable"] and case["what"].startswith("pdist") else tf.constant(value)
        if case["what"] == "pdist rank":
            error, call = ValueError, lambda: m.pdist(tensor)
        elif case["what"] == "pdist metric":
            if case["metric"] == "euclidean":
                raise Skip()
            error, call = NotImplementedError, lambda: m.pdist(tensor, case["metric"])
        else:
            error, call = NotImplementedError, lambda: m.squareform(tensor)
        try:
            with sut(case["what"], allow=(error,)):
                call()
        except error:
            pass
        else:
            require(False, "%s: %s accepted", case["what"], case["shape"])
    ctx.label(case["what"])
    ctx.nontrivial()


def run_c07_single(case, ctx):
    """One observation has no pairs: an empty vector of the input's type (as scipy)."""
    m = mod(UTILS)
    points = np.ones((1, case["d"]), dtype=case["dtype"])
    with Graph() as session:
        with sut("pdist of a single observation"):
            got = session.run(m.pdist(tf.constant(points)))
    require(got.shape == (0,), "pdist of one observation has shape %s", got.shape)
    require(got.dtype == points.dtype, "pdist of one %s observation has type %s", points.dtype, got.dtype,
            signature="pdist-single-%s-gives-%s" % (points.dtype, got.dtype))
    ctx.nontrivial()


# C08 ------------------------------------------------------------------------------------------------------------------

def magnitude(lo, hi):
    """Floats over the whole exponent range."""
    return st.tuples(st.floats(1, 9.999).map(lambda v: round(v, 3)), st.integers(lo, hi)).map(lambda t: float("%re%d" % t))


def signed(strategy):
    return st.one_of(st.just(0.0), strategy, strategy.map(lambda v: -v))


@st.composite
def c08_divide_cases(draw):
    dtype = draw(st.sampled_from(["float64", "float32"]))
    c = draw(st.one_of(st.just(None), st.sampled_from([1e-16, 1e-8, 1e-3, 0.5, 1e-20])))
    exponent = int(round(np.log10(c or 1e-16)))
    hi, lo = (290, -290) if dtype == "float64" else (36, -30)
    n = draw(st.integers(1, 8))
    near = st.tuples(st.sampled_from([0.25, 0.5, 0.999, 1.0, 1.001, 2.0, 3.0, 3.001, 4.0, 10.0, 1e4, 1e9]), st.sampled_from([-1, 1])).map(lambda t: t[0] * t[1] * (c or 1e-16))
    y = st.one_of(signed(magnitude(lo, hi)), near, floats(-10, 10))
    x = st.one_of(signed(magnitude(lo // 2, min(hi + exponent - 1, hi) // 1)), floats(-10, 10))
    return {"x": draw(st.lists(x, min_size=n, max_size=n)), "y": draw(st.lists(y, min_size=n, max_size=n)), "c": c, "dtype": dtype,
            "scalar_x": draw(st.booleans()), "named": draw(st.booleans())}


def run_c08_divide(case, ctx):
    m = mod(UTILS)
    dtype = np.dtype(case["dtype"])
    c = 1e-16 if case["c"] is None else case["c"]
    y = np.asarray(case["y"], dtype)
    x = np.asarray(case["x"], dtype)
    if case["scalar_x"]:
        x = np.full_like(x, x[0])
    kwargs = {} if case["c"] is None else {"small_constant": c}
    named = case["named"] and not case["scalar_x"]     # plain numbers are only used (by the samplers) without a name
    if named:
        kwargs["name"] = "quotient"
    with Graph() as session:
        with sut("safe_divide"):
            tensor = m.safe_divide(float(x[0]) if case["scalar_x"] else tf.constant(x), tf.constant(y), **kwargs)
            got = session.run(tensor)
    require(got.dtype == dtype and got.shape == y.shape, "safe_divide gives %s %s", got.dtype, got.shape)
    if named:
        require(tensor.op.name == "quotient", "the result is named %r", tensor.op.name)
    eps, tiny, big = float(np.finfo(dtype).eps), 8 * float(np.finfo(dtype).tiny), float(np.finfo(dtype).max)
    for a, b, r in zip(x.tolist(), y.tolist(), got.tolist()):
        if abs(a) / c > big / 2:
            continue
        where = "safe_divide(%r, %r, %r) = %r" % (a, b, c, r)
        require(np.isfinite(r), "%s", where)
        require(abs(r) <= abs(a) / c * (1 + 8 * eps), "%s is larger than numerator / constant", where)
        if b != 0:
            require(r * np.sign(a) * np.sign(b) >= 0, "%s has the wrong sign", where)
            exact = abs(a) / abs(b) if abs(b) > 1 or abs(a) / big < abs(b) else float("inf")
            if abs(b) >= 8 * c and np.isfinite(exact) and exact > tiny:
                require(abs(abs(r) / exact - 1) <= 4 * c / abs(b) + 8 * eps, "%s is not close to %r", where, exact)
            if abs(a) > tiny and abs(a) / (abs(b) + 4 * c) > tiny:
                # between the extremes the offset stays of the order of the constant
                require(abs(r) >= abs(a) / (abs(b) + 4 * c) * (1 - 8 * eps), "%s is too small", where)
        elif a != 0:
            require(abs(r) >= abs(a) / (4 * c) * (1 - 8 * eps), "%s is too small", where)
        ctx.label("zero" if b == 0 else "near" if abs(b) < 10 * c else "far")
        ctx.nontrivial(a != 0)


@st.composite
def c08_sqrt_cases(draw):
    dtype = draw(st.sampled_from(["float64", "float32"]))
    hi, lo = (300, -290) if dtype == "float64" else (37, -30)
    value = st.one_of(signed(magnitude(lo, hi)), floats(-10, 10), st.sampled_from([float("inf"), float("-inf"), -0.0, 0.0]))
    bounds = sorted([draw(st.one_of(st.just(0.0), magnitude(-3, 3))) for _ in range(2)])
    return {"x": draw(st.lists(value, min_size=1, max_size=8)), "dtype": dtype,
            "min": draw(st.sampled_from([None, bounds[0]])), "max": draw(st.sampled_from([None, bounds[1]]))}


def run_c08_sqrt(case, ctx):
    m = mod(UTILS)
    dtype = np.dtype(case["dtype"])
    x = np.asarray(case["x"], dtype)
    kwargs = {}
    if case["min"] is not None:
        kwargs["clip_value_min"] = case["min"]
    if case["max"] is not None:
        kwargs["clip_value_max"] = case["max"]
    lo, hi = kwargs.get("clip_value_min", 0.0), kwargs.get("clip_value_max", float("inf"))
    want = np.sqrt(np.minimum(np.maximum(x.astype("float64"), float(dtype.type(lo))), float(dtype.type(hi))))
    with Graph() as session:
        with sut("safe_sqrt"):
            got = session.run(m.safe_sqrt(tf.constant(x), **kwargs))
    require(got.dtype == dtype and got.shape == x.shape, "safe_sqrt gives %s %s", got.dtype, got.shape)
    for a, r, w in zip(x.tolist(), got.astype("float64").tolist(), want.tolist()):
        ok = r == w or (np.isfinite(w) and abs(r - w) <= 4 * float(np.finfo(dtype).eps) * w)
        require(ok, "safe_sqrt(%r, %r, %r) = %r instead of %r", a, lo, hi, r, w)
    ctx.label("negative" if (x < 0).any() else "nonnegative")
    ctx.nontrivial((x < 0).any() or (x > hi).any() or (x > 0).any())


# C09 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c09_cases(draw, large=False):
    n = draw(st.one_of(st.integers(20, 60), st.integers(65, 200)) if large else st.integers(1, 6))
    index = st.integers(0, n - 1)
    op = st.one_of(
        st.tuples(st.just("init"), index, st.integers(0, 1)),
        st.tuples(st.just("assign"), index, st.integers(0, 1)),
        st.tuples(st.just("query"), st.lists(index, min_size=0, max_size=2 * n if large else 8), st.integers(0, 1)),
        st.tuples(st.just("query elsewhere"), st.lists(index, min_size=0, max_size=6), st.integers(0, 1)),
        st.tuples(st.just("query_all"), st.just(0), st.integers(0, 1)),
        st.tuples(st.just("init_missing"), st.just(0), st.integers(0, 1)))
    few = min(n, 60)
    return {"n": n, "shapes": [draw(st.sampled_from([[], [2], [2, 3]])) for _ in range(few)] + [[]] * (n - few),
            "dtypes": [draw(st.sampled_from(["float64", "float32", "int32"])) for _ in range(few)] + ["float64"] * (n - few),
            "ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=12 if n > 64 else 40 if large else 12))]}


def run_c09(case, ctx):
    m = mod(UTILS)
    with tf.Graph().as_default() as graph:
        variables = [tf.Variable(np.full(s, i + 1, d), name="v%d" % i) for i, (s, d) in enumerate(zip(case["shapes"], case["dtypes"]))]
        assigns = [tf.assign_add(v, np.full(s, 10, d)) if False else tf.assign(v, np.full(s, 40 + i, d))
                   for i, (v, s, d) in enumerate(zip(variables, case["shapes"], case["dtypes"]))]
        flags = [tf.is_variable_initialized(v) for v in variables]
        sessions = [tf.Session(graph=graph), tf.Session(graph=graph)]
        state = [{}, {}]
        mixed = 0
        try:
            for kind, arg, s in case["ops"]:
                if kind == "init":
                    sessions[s].run(variables[arg].initializer)
                    state[s][arg] = arg + 1
                elif kind == "assign":
                    sessions[s].run(assigns[arg].op)
                    state[s][arg] = 40 + arg
                else:
                    indices = arg if kind in ("query", "query elsewhere") else list(range(case["n"]))
                    # (the graph of the session need not be the default one)
                    with (tf.Graph() if kind == "query elsewhere" else graph).as_default(), sut("uninitialized_params"):
                        got = m.uninitialized_params(params=[variables[i] for i in indices], session=sessions[s])
                    got = [next(i for i, v in enumerate(variables) if v is g) for g in got]
                    want = [i for i in indices if i not in state[s]]
                    require(got == want, "of %s, %s are reported uninitialised instead of %s", indices, got, want)
                    mixed += 0 < len(want) < len(indices)
                    if kind == "init_missing":
                        sessions[s].run(tf.variables_initializer([variables[i] for i in got]))
                        state[s].update({i: i + 1 for i in got})
                for session, known in zip(sessions, state):
                    for i, flag in enumerate(session.run(flags)):
                        require(bool(flag) == (i in known), "variable %d was %sinitialised by %s", i, "" if flag else "un", kind)
                    if known:
                        for i, value in zip(known, session.run([variables[i] for i in known])):
                            require(np.all(value == known[i]), "variable %d was changed by %s", i, kind)
        finally:
            for session in sessions:
                session.close()
    ctx.label("mixed" if mixed else "uniform")
    ctx.nontrivial(mixed > 0)


CHECKS = {
    "C05": lambda: ([Part("roundtrip", c05_cases(), run_c05, 500), Part("large", c05_cases(large=True), run_c05, 60),
                     Part("reject", None, run_c05_bad, 0, 0, explicit=[{"input": k} for k in BAD_INPUTS])],
                    "shapes of rank 0-4 (also empty), element types, tensors and variables; non-trivial: more than one element", []),
    "C06": lambda: ([Part("median", c06_cases(), run_c06, 800), Part("large", c06_cases(large=True), run_c06, 60)],
                    "arrays of rank 0-3 with ties/orders/magnitudes; non-trivial: at least 3 elements, not all equal", []),
    "C07": lambda: ([Part("single", None, run_c07_single, 0, 0, explicit=[{"d": d, "dtype": t} for d in (1, 3) for t in ("float64", "float32")]),
                     Part("pdist", c07_pdist_cases(), run_c07_pdist, 250), Part("large", c07_pdist_cases(large=True), run_c07_pdist, 18), Part("squareform", c07_square_cases(), run_c07_square, 400),
                     Part("reject", c07_reject_cases(), run_c07_reject, 150)],
                    "point sets, condensed vectors of all lengths, invalid inputs; non-trivial: at least 3 points / 2 entries", []),
    "C08": lambda: ([Part("divide", c08_divide_cases(), run_c08_divide, 1000), Part("sqrt", c08_sqrt_cases(), run_c08_sqrt, 700)],
                    "operands over the whole exponent range without subnormals; non-trivial: non-zero numerator / clipped or positive operand",
                    ["subnormal numbers are excluded (the platform may flush them)"]),
    "C09": lambda: ([Part("history", c09_cases(), run_c09, 250), Part("large", c09_cases(large=True), run_c09, 24)],
                    "histories of initialisations, assignments and queries over two sessions, also while another graph is the default one; non-trivial: a query with both kinds of variables", []),
}
