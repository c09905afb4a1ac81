"""Black-box access to samplers: cases -> samplers in their own graph, observation of the injected noise."""
import time

import numpy as np
from hypothesis import strategies as st

from pbt.core import HarnessError, Violation, sut
from pbt.shims import tf
from pbt.util import floats, mod

RANDOM_OPS = ("RandomStandardNormal", "StatelessRandomNormal", "StatelessRandomNormalV2")
ANY_RANDOM = RANDOM_OPS + ("TruncatedNormal", "RandomUniform", "StatelessRandomUniform", "StatelessRandomUniformV2",
                           "RandomGammaV3", "ParameterizedTruncatedNormal", "Multinomial")
METHODS = ("SGHMC", "SGLD", "RelativisticSGHMC")


class Schedule(object):
    """A user-defined stepsize schedule: gives the listed values (the last one forever) and records its calls."""

    def __init__(self, values, initial_value=None):
        self.values = list(values)
        self.initial_value = self.values[0] if initial_value is None else initial_value
        self.calls, self.updates = 0, []

    def __iter__(self):
        return self

    def __next__(self):
        value = self.values[min(self.calls, len(self.values) - 1)]
        self.calls += 1
        return value

    def update(self, *args, **kwargs):
        self.updates.append((args, kwargs))


def _flatten(fetches):
    if isinstance(fetches, dict):
        fetches = list(fetches.values())
    if isinstance(fetches, (list, tuple)):
        return [x for f in fetches for x in _flatten(f)]
    return [fetches]


class RecordingSession(tf.Session):
    """Also fetches the random numbers drawn by whatever is run while `self.recording` is a list."""

    recording = None
    runs = 0
    sent = 0        # operations of the graph that this session knows already
    _cache = None

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        self.runs += 1
        self.sent = len(self.graph.get_operations())
        if self.recording is None:
            return super().run(fetches, feed_dict, options, run_metadata)
        names = self.random_ops(fetches, feed_dict or {})
        extra = [self.graph.get_operation_by_name(n).outputs[0] for n in names]
        result, values = super().run([fetches, extra], feed_dict, options, run_metadata)
        self.recording.append(dict(zip(names, values)))
        return result

    def random_ops(self, fetches, feed_dict):
        elements = [self.graph.as_graph_element(f) for f in _flatten(fetches)]
        fed = {self.graph.as_graph_element(k).name for k in feed_dict}
        key = (tuple(e.name for e in elements), tuple(sorted(fed)))
        if self._cache is None:
            self._cache = {}
        if key not in self._cache:
            ops = ancestors(elements, fed)
            self._cache[key] = sorted(op.name for op in ops if op.type in ANY_RANDOM)
        return self._cache[key]


def ancestors(elements, fed=(), control=True):
    """All operations needed for `elements` (tensors or operations)."""
    stack = [e if isinstance(e, tf.Operation) else e.op for e in elements if getattr(e, "name", None) not in fed]
    seen = set()
    while stack:
        op = stack.pop()
        if op in seen:
            continue
        seen.add(op)
        stack.extend(t.op for t in op.inputs if t.name not in fed)
        if control:
            stack.extend(op.control_inputs)
    return seen


def noise_map(graph, params, drawn):
    """Name of the random op that feeds each parameter, or None if that cannot be told from the graph."""
    if any(graph.get_operation_by_name(n).type not in RANDOM_OPS for n in drawn):
        return None
    result = []
    for param in params:
        found = set()
        ref = graph.as_graph_element(param).op
        for op in graph.get_operations():
            if op.type.startswith("Assign") and op.inputs and op.inputs[0].op is ref and not op.name.startswith(ref.name + "/"):
                found |= {o.name for o in ancestors(list(op.inputs[1:]), control=False) if o.name in drawn}
        result.append(found)
    if all(len(f) == 1 for f in result) and len(set.union(*result)) == len(params):
        return [f.pop() for f in result]
    ordered = [op.name for op in graph.get_operations() if op.name in drawn]
    sizes = [int(np.prod(param.shape.as_list(), dtype=int)) for param in params]
    if len(ordered) == len(params) and [drawn[n].size for n in ordered] == sizes and not any(result):
        return ordered
    return None


# costs ----------------------------------------------------------------------------------------------------------------

class Cost(object):
    """U(x) = sum_k a_k x_k^2 / 2 + s (sum_k x_k)^2 / 2 + q.x + w sum_k cos(x_k + k) + d sum_k x_k^4 / 4 with x all parameters'
    elements in order; `case["cost"]` holds the coefficients. The forms of the cost value: scalar or 1-d."""

    def __init__(self, spec, n, dtype):
        self.a = np.resize(np.asarray(spec["a"], "float64"), n)
        self.q = np.resize(np.asarray(spec["q"], "float64"), n)
        self.s, self.w, self.d = spec["s"], spec["w"], spec["d"]
        unit = spec.get("unit", 1)
        if unit != 1:
            self.a, self.q, self.s, self.w, self.d = unit * self.a, unit * self.q, unit * self.s, unit * self.w, unit * self.d
        self.shift = np.arange(n)
        self.vector = spec.get("vector", False)
        self.dtype = np.dtype(dtype)

    def tensor(self, params):
        x = tf.concat([tf.reshape(p, [-1]) for p in params], axis=0)
        u = tf.reduce_sum(0.5 * self.a.astype(self.dtype) * x * x + self.q.astype(self.dtype) * x)
        if self.s:
            u += 0.5 * self.dtype.type(self.s) * tf.square(tf.reduce_sum(x))
        if self.w:
            u += self.dtype.type(self.w) * tf.reduce_sum(tf.cos(x + self.shift.astype(self.dtype)))
        if self.d:
            u += 0.25 * self.dtype.type(self.d) * tf.reduce_sum(x ** 4)
        return tf.reshape(u, [1]) if self.vector else u

    def value(self, x):
        return float(np.sum(0.5 * self.a * x * x + self.q * x) + 0.5 * self.s * np.sum(x) ** 2
                     + self.w * np.sum(np.cos(x + self.shift)) + 0.25 * self.d * np.sum(x ** 4))

    def magnitude(self, x):
        return float(np.sum(np.abs(0.5 * self.a * x * x) + np.abs(self.q * x)) + 0.5 * abs(self.s) * np.sum(np.abs(x)) ** 2
                     + abs(self.w) * len(x) + 0.25 * abs(self.d) * np.sum(x ** 4))

    def grad(self, x):
        return self.a * x + self.s * np.sum(x) + self.q - self.w * np.sin(x + self.shift) + self.d * x ** 3

    def grad_magnitude(self, x):
        return (np.abs(self.a * x) + abs(self.s) * np.sum(np.abs(x)) + np.abs(self.q)
                + abs(self.w) * (1 + np.abs(x)) + np.abs(self.d * x ** 3))


@st.composite
def cost_specs(draw, flat=False, units=(1,)):
    """`units`: factors of the whole cost"""
    few = lambda lo, hi: st.lists(floats(lo, hi), min_size=1, max_size=4)
    if flat:
        return {"a": [0.0], "q": [0.0], "s": 0.0, "w": 0.0, "d": 0.0, "vector": False}
    kind = draw(st.sampled_from(["linear", "quadratic", "coupled", "nonlinear"]))
    spec = {"a": [0.0], "q": draw(few(-3.0, 3.0)), "s": 0.0, "w": 0.0, "d": 0.0, "vector": draw(st.booleans())}
    if kind != "linear":
        spec["a"] = draw(few(0.0, 3.0))
    if kind in ("coupled", "nonlinear"):
        spec["s"] = draw(floats(0.0, 2.0))
    if kind == "nonlinear":
        spec["w"], spec["d"] = draw(floats(-2.0, 2.0)), draw(floats(0.0, 0.3))
    if len(units) > 1:
        spec["unit"] = draw(st.sampled_from(units))
    return spec


UNITS = (1, 1, 1, 1, 1, 1e-8, 1e-4, 100.0, 1e4, 1e6)     # gradients are neither clipped nor negligible


SHAPES = [[], [1], [2], [3], [2, 2], [1, 3], [3, 1], [2, 1, 2]]


@st.composite
def param_specs(draw, max_params=4, lo=-2.0, hi=2.0):
    shapes = draw(st.lists(st.sampled_from(SHAPES), min_size=1, max_size=max_params))
    n = sum(int(np.prod(s, dtype=int)) for s in shapes)
    return {"shapes": shapes, "start": draw(st.lists(floats(lo, hi), min_size=n, max_size=n)),
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"]))}


LARGE_SHAPES = SHAPES + [[7], [20], [5, 5], [3, 4, 5], [60], [1, 40], [40, 1], [17, 3], [2, 2, 2, 2], [16, 16], [300]]
HUGE_SHAPES = [[50, 50], [1000], [3, 400], [2, 8, 64], [1, 700]]


@st.composite
def large_param_specs(draw, max_params=9, lo=-2.0, hi=2.0):
    """More parameters, and larger ones."""
    kind = draw(st.integers(0, 7))
    if kind < 2:        # so many that their names do not sort like their numbers
        shapes = draw(st.lists(st.sampled_from(SHAPES), min_size=11, max_size=14))
    elif kind < 4:      # all alike
        shapes = [draw(st.sampled_from([[], []] + SHAPES))] * draw(st.integers(2, 7))
    elif kind == 4:
        shapes = draw(st.permutations([draw(st.sampled_from(HUGE_SHAPES))] + draw(st.lists(st.sampled_from(LARGE_SHAPES), max_size=2))))
    else:
        shapes = draw(st.lists(st.sampled_from(LARGE_SHAPES), min_size=1, max_size=max_params))
    n = sum(int(np.prod(s, dtype=int)) for s in shapes)
    values = draw(st.lists(floats(lo, hi), min_size=1, max_size=6))
    return {"shapes": shapes, "start": [values[k % len(values)] for k in range(n)],
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"]))}


def stepsizes(lo, hi, n, most=16):
    """Sequences of stepsizes, constant or varying; long ones repeat themselves."""
    one = st.floats(np.log(lo), np.log(hi)).map(lambda v: float("%.3g" % np.exp(v)))
    k = min(n, most)
    return st.one_of(one.map(lambda v: [v]), st.lists(one, min_size=k, max_size=k).map(lambda values: (values * (n // k + 1))[:n]))


def any_stepsizes(lo, hi, n):
    """Sometimes far smaller or larger than usual."""
    usual = stepsizes(lo, hi, n)
    extreme = st.sampled_from([1e-8, 1e-6, 1e-5, 1e-4, 1.0, 1.5, 2.0])
    return st.one_of(usual, usual, usual, extreme.map(lambda v: [v]), st.lists(extreme, min_size=n, max_size=n))


def sampler_class(method):
    return getattr(mod({
        "SGHMC": "pysgmcmc.samplers.sghmc", "SGLD": "pysgmcmc.samplers.sgld",
        "RelativisticSGHMC": "pysgmcmc.samplers.relativistic_sghmc", "SVGD": "pysgmcmc.samplers.svgd",
    }[method]), method + "Sampler")


def sleep_op(ms):
    def sleep():
        time.sleep(ms / 1000.0)
        return np.int32(0)
    with tf.control_dependencies(None):
        return tf.py_func(sleep, [], tf.int32, stateful=True).op


class World(object):
    """Graph, session, parameters and sampler(s) of one case. Use as a context manager."""

    keyword = False     # give feeds to a step as keyword argument

    def __init__(self, threads=None):
        self.graph = tf.Graph()
        config = None
        if threads:
            config = tf.ConfigProto(inter_op_parallelism_threads=threads, intra_op_parallelism_threads=threads)
        self.session = RecordingSession(graph=self.graph, config=config)

    def __enter__(self):
        self._context = self.graph.as_default()
        self._context.__enter__()
        return self

    def __exit__(self, *args):
        self.session.close()
        return self._context.__exit__(*args)

    def make_params(self, case, prefix="p"):
        dtype = np.dtype(case["dtype"])
        offset, params = 0, []
        for i, shape in enumerate(case["shapes"]):
            size = int(np.prod(shape, dtype=int))
            value = np.asarray(case["start"][offset:offset + size], dtype).reshape(shape)
            params.append(tf.Variable(value, dtype=dtype, name="%s%d" % (prefix, i)))
            offset += size
        return params

    def initialize(self):
        """What users do after constructing a sampler."""
        self.session.run(tf.global_variables_initializer())

    def delay(self, picks):
        """Let operations of the graph start later: [index, what, milliseconds]: an operation ("any"), all readers of an
        operation's result ("consumers") or an operation that reads a variable ("reader"). Only operations that no session run has seen yet can still be delayed. Returns their names."""
        fixed = ("Const", "VariableV2", "VarHandleOp", "Placeholder", "NoOp", "IsVariableInitialized", "PyFunc")
        operations = self.graph.get_operations()
        free = [op for op in operations[self.session.sent:] if op.type not in fixed and op._get_control_flow_context() is None]
        loose = set(free)

        def of_variable(op):
            return op.type == "VariableV2" or op.type in ("Identity", "ReadVariableOp") and any(i.op.type in ("VariableV2", "VarHandleOp") for i in op.inputs)

        readers = [op for op in free if any(of_variable(i.op) for i in op.inputs)]
        waits = {}
        for index, what, ms in picks if free else []:
            op = free[index % len(free)]
            chosen = [op]
            if what == "reader" and readers:
                chosen = [readers[index % len(readers)]]
            elif what == "consumers":
                chosen = [c for output in op.outputs for c in output.consumers() if c in loose]
            for c in chosen:
                if c.name not in waits:
                    waits[c.name] = ms
                    c._add_control_input(sleep_op(ms))
        return sorted(waits)

    def step(self, sampler, *args):
        """One step: list of parameter arrays, cost and the random numbers drawn."""
        self.session.recording = []
        try:
            with sut("sampler step"):
                result = next(sampler) if not args else sampler.__next__(feed_dict=args[0]) if self.keyword else sampler.__next__(*args)
        finally:
            drawn, self.session.recording = self.session.recording, None
        noise = {}
        for d in drawn:
            noise.update(d)
        return result[0], result[1], noise


def listed(sample, n):
    """A sample as list of arrays."""
    return [sample] if n == 1 and not isinstance(sample, list) else list(sample)


def flatten(arrays):
    return np.concatenate([np.asarray(a, "float64").reshape(-1) for a in arrays]) if arrays else np.zeros(0)


def check_structure(sample, params, where="sample"):
    """One array per parameter with its shape and type, the bare array for a single one."""
    arrays = [sample] if len(params) == 1 else sample
    if len(params) != 1 and not (isinstance(sample, list) and len(sample) == len(params)):
        raise Violation("%s: %d parameters, but the sample is %r" % (where, len(params), sample))
    for a, p in zip(arrays, params):
        if isinstance(a, (list, tuple)) or not hasattr(a, "dtype") or a.shape != tuple(p.shape.as_list()) or a.dtype != p.dtype.base_dtype.as_numpy_dtype:
            raise Violation("%s: value %r for a parameter of shape %s and type %s" % (where, a, p.shape, p.dtype.base_dtype.name))
    return list(arrays)


def pick_noise(world, params, drawn):
    """Standard normal numbers of each parameter's update as one vector, or None when they cannot be attributed."""
    names = noise_map(world.graph, params, drawn)
    if names is None:
        return None
    sizes = [int(np.prod(p.shape.as_list(), dtype=int)) for p in params]
    if any(drawn[n].size != k for n, k in zip(names, sizes)):
        return None
    return flatten([drawn[n] for n in names])
