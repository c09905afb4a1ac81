"""C35-C37: failing steps, construction next to what exists, invalid arguments."""
import itertools
import time

import numpy as np
from hypothesis import strategies as st

from pbt.checks.protocol import ALL, any_sampler, cost_function, dimension, label, params_start
from pbt.checks.steps import maybe_seed
from pbt.core import HarnessError, Part, Violation, require, sut
from pbt.drive import construct, follow
from pbt.obs import METHODS, Cost, Schedule, World, check_structure, cost_specs, flatten, listed, param_specs, sampler_class
from pbt.shims import tf
from pbt.util import floats, mod, same, seeds32

# C35 ------------------------------------------------------------------------------------------------------------------

EARLY = ["batch raises", "batch ends", "schedule raises", "bad shape", "bad feed"]      # before anything is computed
LATE = ["missing feed", "cost fails", "gradient fails"]


class Fault(Exception):
    pass


class FaultyBatches(object):
    def __init__(self, placeholder, values):
        self.placeholder, self.values, self.t, self.fault = placeholder, values, 0, None

    def __next__(self):
        if self.fault == "batch raises":
            raise Fault("no batch today")
        if self.fault == "batch ends":
            raise StopIteration
        if self.fault == "bad shape":
            return {self.placeholder: np.zeros(5)}
        return {self.placeholder: np.array(self.values[self.t])}


class FaultySchedule(Schedule):
    fault = None

    def __next__(self):
        if self.fault == "schedule raises":
            raise Fault("no stepsize today")
        return super().__next__()


@st.composite
def c35_cases(draw):
    case = draw(any_sampler(max_steps=6, max_burn_in=5))
    case["late"] = draw(st.booleans())
    case["cost"] = draw(cost_specs())
    case["batches"] = draw(st.lists(st.tuples(floats(-3.0, 3.0), floats(0.0, 2.0)).map(list), min_size=case["steps"], max_size=case["steps"]))
    # faults before each of the steps
    kinds = st.sampled_from(EARLY + LATE if case["late"] else EARLY)
    case["faults"] = [draw(st.lists(kinds, max_size=2)) for _ in range(case["steps"])]
    if not any(case["faults"]):
        case["faults"][draw(st.integers(0, case["steps"] - 1))] = [draw(kinds)]
    k = 1 if case["method"] == "SVGD" else len(case["shapes"])
    case["delays"] = [draw(st.sampled_from([0, 0, 3, 10])) for _ in range(k + 1)]
    case["fails_at"] = draw(st.integers(0, k - 1))
    case["threads"] = draw(st.sampled_from([None, 1, 4]))
    return case


def failing(tensor, flag, delay, backward):
    """The tensor, computed after `delay` ms; fails when `flag` is fed as true - its gradient does, if `backward`."""
    def wait(fail):
        time.sleep(delay / 1000.0)
        if fail:
            raise Fault("this evaluation fails")
        return np.int32(0)

    @tf.custom_gradient
    def identity(t):
        def grad(dy):
            with tf.control_dependencies([tf.py_func(wait, [flag], tf.int32, stateful=True)] if backward else []):
                return tf.identity(dy)
        with tf.control_dependencies([tf.py_func(wait, [flag], tf.int32, stateful=True)] if not backward else []):
            return tf.identity(t), grad
    return identity(tensor)


class FaultyCost(object):
    """b0 U(x) + b1 sum x^2 / 2 with batch b; value and gradient fail on demand."""

    vector = False

    def __init__(self, case):
        self.case, self.dtype = case, np.dtype(case["dtype"])
        self.base = Cost(dict(case["cost"], vector=False), dimension(case), self.dtype)
        self.batch = tf.placeholder(self.dtype, [2], name="batch")
        self.needed = tf.placeholder(self.dtype, [], name="needed")
        self.flags = [tf.placeholder_with_default(False, [], name="fails%d" % i) for i in range(2)]

    def tensor(self, params):
        case = self.case
        if case["late"]:
            params = [failing(p, tf.logical_and(self.flags[1], i == case["fails_at"]), case["delays"][i], True) for i, p in enumerate(params)]
        x = tf.concat([tf.reshape(p, [-1]) for p in params], axis=0)
        u = self.batch[0] * self.base.tensor(params) + self.batch[1] * tf.reduce_sum(0.5 * x * x) + 0 * self.needed
        return failing(u, self.flags[0], case["delays"][-1], False) if case["late"] else u

    def at(self, x, b):
        base = self.base
        return (b[0] * base.value(x) + b[1] * np.sum(0.5 * x * x), abs(b[0]) * base.magnitude(x) + b[1] * np.sum(x * x),
                b[0] * base.grad(x) + b[1] * x, abs(b[0]) * base.grad_magnitude(x) + b[1] * np.abs(x))


ERRORS = {"batch raises": Fault, "batch ends": StopIteration, "schedule raises": Fault, "bad shape": ValueError,
          "bad feed": (ValueError, TypeError), "missing feed": tf.errors.OpError, "cost fails": tf.errors.OpError, "gradient fails": tf.errors.OpError}


def run_c35(case, ctx):
    with World(threads=case["threads"]) as world:
        params = world.make_params(case)
        cost = FaultyCost(case)
        fun = (lambda particle: cost.tensor([particle])) if case["method"] == "SVGD" else cost.tensor
        schedule = FaultySchedule(case["eps"])
        batches = FaultyBatches(cost.batch, case["batches"])
        sampler = construct(case["method"], params, fun, world.session, case, schedule, batch_generator=batches)
        world.initialize()
        follower = follow(world, params, case["method"], sampler, case, cost)
        burning = hasattr(type(sampler), "is_burning_in")
        late, faults = False, 0
        for t in range(case["steps"]):
            batches.t = t
            for fault in case["faults"][t]:
                before = world.session.run(params)
                updates, in_burn_in = len(schedule.updates), burning and sampler.is_burning_in
                feed = {cost.needed: 1.0}
                if fault == "missing feed":
                    feed = {}
                elif fault == "bad feed":
                    feed[cost.needed] = [1.0, 2.0]
                elif fault in ("cost fails", "gradient fails"):
                    feed[cost.flags[fault == "gradient fails"]] = True
                batches.fault = schedule.fault = fault
                where = "step %d, in which %s" % (t + 1, {"bad feed": "a feed of wrong shape is given", "missing feed": "a feed is missing",
                                                        "bad shape": "the batch has a wrong shape"}.get(fault, "the " + fault))
                try:
                    with sut(where, allow=(ERRORS[fault],) if not isinstance(ERRORS[fault], tuple) else ERRORS[fault]):
                        result = sampler.__next__(feed)
                except ERRORS[fault]:
                    pass
                else:
                    raise Violation("%s: no error, but the result %s" % (where, result))
                batches.fault = schedule.fault = None
                late = late or fault in LATE
                for i, (a, b) in enumerate(zip(before, world.session.run(params))):
                    require(same(a, b), "%s: parameter %d was moved from %s to %s", where, i, a, b)
                require(len(schedule.updates) == updates, "%s: the schedule was told about a sample", where)
                if burning:
                    require(sampler.is_burning_in == in_burn_in, "%s: it was counted as a burn-in step", where)
                if fault in ("missing feed", "cost fails", "gradient fails", "bad shape", "bad feed"):
                    schedule.calls -= 1      # the value of the failed step is spent
                faults += 1
            rows = follower.x if case["method"] == "SVGD" else [follower.x]
            values = [cost.at(row, case["batches"][t]) for row in rows]
            u, um, g, gm = [np.array([v[k] for v in values]) for k in range(4)] if case["method"] == "SVGD" else values[0]
            if not late:
                # as if nothing had happened
                if not follower.step(case["eps"][min(t, len(case["eps"]) - 1)], {cost.needed: 1.0}, grad=g, grad_magnitude=gm, cost=u, cost_magnitude=um):
                    break
                continue
            # the sampler's own state may have changed, but the step starts from the parameters
            with sut("a step after a failed one"):
                sample, value = sampler.__next__({cost.needed: 1.0})
            require(len(schedule.updates) == t + 1, "after %d steps, the schedule was told %d samples", t + 1, len(schedule.updates))
            arrays = check_structure(sample, params, "step %d" % (t + 1))
            for a, v in zip(arrays, world.session.run(params)):
                require(np.array_equal(a, v, equal_nan=True), "step %d returned %s, the parameter holds %s", t + 1, a, v)
            got = np.asarray(value, "float64").reshape(-1)
            bound = (1e-10 if case["dtype"] == "float64" else 1e-4) * (np.asarray(um) + 1e-3)
            if np.all(np.isfinite(np.asarray(u))):
                require(np.all(np.abs(got - u) <= bound), "step %d after a failed one: the cost is %s, that of the parameters is %s", t + 1, got, u)
            follower.x = follower.read() if case["method"] == "SVGD" else flatten(arrays)
            if not np.all(np.isfinite(follower.x)) or np.max(np.abs(follower.x)) > 1e4:
                break
    label(case, ctx, follower)
    ctx.label("late faults" if late else "early faults")
    ctx.nontrivial(faults > 0)


@st.composite
def finite_cases(draw):
    case = draw(any_sampler(max_steps=7, max_burn_in=5))
    case["cost"] = draw(cost_specs())
    case["batches"] = draw(st.lists(st.tuples(floats(-3.0, 3.0), floats(0.0, 2.0)).map(list), min_size=case["steps"], max_size=case["steps"]))
    case["by"] = draw(st.sampled_from(["loop", "list", "islice", "next"]))
    return case


def run_finite(case, ctx):
    """A minibatch source with an end."""
    case = dict(case, late=False)
    with World() as world:
        params = world.make_params(case)
        cost = FaultyCost(case)
        fun = (lambda particle: cost.tensor([particle])) if case["method"] == "SVGD" else cost.tensor
        source = ({cost.batch: np.array(b), cost.needed: 1.0} for b in case["batches"])
        sampler = construct(case["method"], params, fun, world.session, case, Schedule(case["eps"]), batch_generator=source)
        world.initialize()
        steps = []
        with sut("iterating over a sampler with %d minibatches" % len(case["batches"])):
            if case["by"] == "loop":
                for step in sampler:
                    steps.append(step)
            elif case["by"] == "list":
                steps = list(sampler)
            elif case["by"] == "islice":
                steps = list(itertools.islice(sampler, len(case["batches"]) + 5))
            else:
                while True:
                    step = next(sampler, None)
                    if step is None:
                        break
                    steps.append(step)
        require(len(steps) == len(case["batches"]), "%d steps were made with %d minibatches", len(steps), len(case["batches"]))
        for _ in range(2):
            with sut("stepping past the end"):
                require(next(sampler, "end") == "end", "a step was made without a minibatch")
        for a, v in zip(listed(steps[-1][0], len(params)), world.session.run(params)):
            require(np.array_equal(a, v, equal_nan=True), "the last sample was %s, the parameter holds %s", a, v)
    label(case, ctx)
    ctx.nontrivial(len(steps) > 1)


# C36 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c36_cases(draw):
    case = draw(any_sampler(max_steps=5, max_burn_in=4))
    case["cost"] = draw(cost_specs())
    k = len(case["shapes"])
    # cold: not initialised yet; warm: initialised; moved: other than its initial value
    case["state"] = [draw(st.sampled_from(["cold", "warm", "moved", "moved"])) for _ in range(k)]
    case["by"] = draw(st.sampled_from([-1.0, 0.75, 2.0]))
    old = draw(param_specs(max_params=2))
    old.update(method=draw(st.sampled_from(METHODS)), hyper={}, seed=draw(maybe_seed), eps=[0.01], steps=3)
    case["old"] = draw(st.one_of(st.none(), st.just(old)))
    case["old_steps"] = draw(st.integers(0, 3))
    case["shared"] = case["old"] is not None and case["method"] != "SVGD" and draw(st.booleans())
    case["how"] = draw(st.sampled_from(["direct", "factory"]))
    case["with_batches"] = draw(st.booleans())
    case["tuple_hyper"] = draw(st.booleans())
    return case


def initialize_rest(world):
    """What a user does who wants to keep what is initialised."""
    variables = tf.global_variables()
    flags = world.session.run([tf.is_variable_initialized(v) for v in variables])
    world.session.run(tf.variables_initializer([v for v, f in zip(variables, flags) if not f]))


def run_c36(case, ctx):
    with World() as world:
        session = world.session
        other = [tf.Variable(np.arange(4.0), name="unrelated"), tf.Variable(7, name="counter", trainable=False)]
        cold = tf.Variable(1.5, name="unrelated_cold")
        session.run(tf.variables_initializer(other))
        session.run(tf.assign_add(other[0], np.ones(4)))
        params = world.make_params(case)
        old = None
        if case["old"] is not None:
            old_case = dict(case["old"])
            if case["shared"]:      # a sampler of the same parameters
                old_case.update(shapes=case["shapes"], start=case["start"], dtype=case["dtype"])
                old_params = params
            else:
                old_params = world.make_params(old_case, prefix="old")
            old_cost = Cost({"a": [1.0], "q": [0.5], "s": 0.0, "w": 0.0, "d": 0.0}, len(old_case["start"]), old_case["dtype"])
            old = construct(old_case["method"], old_params, old_cost.tensor, session, old_case, Schedule(old_case["eps"]))
            session.run(tf.variables_initializer([v for v in tf.global_variables() if v is not cold and v not in params and v not in other]))
            if case["shared"]:
                session.run(tf.variables_initializer(params))
            follower_old = follow(world, old_params, old_case["method"], old, old_case, old_cost)
            for _ in range(case["old_steps"]):
                follower_old.step(old_case["eps"][0])
        starts = list(params_start(case))
        for p, s, state in zip(params, starts, case["state"]):
            if state != "cold":
                session.run(p.initializer)
            if state == "moved":
                p.load((s + case["by"]).astype(s.dtype), session)
        if case["shared"]:
            follower_old.x = flatten(session.run(params))
        expected = [s if state != "moved" else (s + case["by"]).astype(s.dtype) for s, state in zip(starts, case["state"])]
        if case["shared"]:
            expected = session.run(params)
        existing = [v for v in tf.global_variables() if v is not cold and v not in params]
        before = session.run(existing)
        cost = Cost(case["cost"], dimension(case), case["dtype"])
        given, drawn = list(params), []

        def batches():
            while True:
                drawn.append(1)
                yield {}

        kwargs = dict(case["hyper"], stepsize_schedule=Schedule(case["eps"]), dtype=tf.as_dtype(case["dtype"]), session=session, seed=case["seed"])
        if case["with_batches"]:
            kwargs["batch_generator"] = batches()
        kwargs["particles" if case["method"] == "SVGD" else "params"] = given
        kwargs["cost_fun"] = cost_function(case, cost)
        copy = dict(kwargs)
        np_state, py_state = np.random.get_state()[1].tobytes(), None
        with sut("constructing " + case["method"]):
            if case["how"] == "direct":
                sampler = sampler_class(case["method"])(**kwargs)
            else:
                factory = mod("pysgmcmc.sampling").Sampler
                sampler = factory.get_sampler(getattr(factory, case["method"]), **kwargs)
        what = "constructing " + case["method"]
        require(len(given) == len(params) and all(a is b for a, b in zip(given, params)), "%s changed the list of parameters to %s", what, given)
        require(kwargs.keys() == copy.keys() and all(kwargs[k] is v for k, v in copy.items()), "%s changed its arguments", what)
        require(not drawn, "%s drew %d minibatches", what, len(drawn))
        require(kwargs["stepsize_schedule"].calls == 0, "%s used up %d stepsizes", what, kwargs["stepsize_schedule"].calls)
        for v, a, b in zip(existing, before, session.run(existing)):
            require(same(a, b), "%s changed variable %s from %s to %s", what, v.name, a, b)
        require(not session.run(tf.is_variable_initialized(cold)), "%s initialised a variable that is not its own", what)
        for i, (p, want) in enumerate(zip(params, expected)):
            with sut("reading parameter %d after construction" % i):
                value = session.run(p)
            require(same(value, want), "after %s, parameter %d (%s) holds %s instead of %s", what, i, case["state"][i], value, want)
        if case["seed"] is not None:
            require(np_state == np.random.get_state()[1].tobytes(), "%s changed the global random state", what)
        initialize_rest(world)
        # the chain starts from these values, and the other sampler goes on
        follower = follow(world, params, case["method"], sampler, case, cost)
        done = 0
        for t in range(case["steps"]):
            if case["shared"]:
                follower.x = flatten(session.run(params))
            if not follower.step(case["eps"][min(t, len(case["eps"]) - 1)]):
                break
            done += 1
            if old is not None:
                if case["shared"]:
                    follower_old.x = flatten(session.run(params))
                if not follower_old.step(old_case["eps"][0]):
                    break
    label(case, ctx, follower)
    ctx.label(*sorted(set(case["state"])))
    ctx.label("other sampler, same parameters" if case["shared"] else "other sampler" if old is not None else "no other sampler")
    ctx.nontrivial(done >= 1 and ("moved" in case["state"] or old is not None))


# C37 ------------------------------------------------------------------------------------------------------------------

class Lacking(object):
    """A schedule without one of its parts."""

    def __init__(self, missing):
        for name in ("update", "initial_value"):
            if name != missing:
                setattr(self, name, 0.01 if name == "initial_value" else lambda *a, **k: None)


class LackingNext(Lacking):
    def __init__(self):
        super().__init__(None)


class LackingOther(Lacking):
    def __next__(self):
        return 0.01


INVALID = {
    "seed": [1.5, "1", [1], 2.0, 0.0, ""],
    "session": ["session", 3, "class"],
    "dtype": ["float64", 64, None, "numpy"],
    "cost_fun": [None, 3.0, "cost", [1]],
    "batch_generator": [3, "batches", [1, 2], {"a": 1}, 0, []],
    "stepsize_schedule": [0.01, None, [0.01], "no update", "no initial_value", "no next"],
    "burn_in_steps": [10.0, "10", None, [3], 0.0],
    "alpha": ["0.9", None, [0.9]],
    "fudge_factor": ["1e-6", None, [1.0]],
}


def arguments_of(method):
    names = ["seed", "session", "dtype", "cost_fun", "batch_generator", "stepsize_schedule"]
    return names + {"SGHMC": ["burn_in_steps"], "SGLD": ["burn_in_steps"], "SVGD": ["alpha", "fudge_factor"]}.get(method, [])


EVERY_ARGUMENT = [{"method": method, "name": name, "value": value, "how": ["direct", "factory"][(k + len(name)) % 2], "no_session": False, "old_steps": 0}
                  for method in ALL for name in arguments_of(method) for k, value in enumerate(INVALID[name])]


@st.composite
def c37_cases(draw):
    method = draw(st.sampled_from(ALL))
    name = draw(st.sampled_from(arguments_of(method)))
    return {"method": method, "name": name, "value": draw(st.sampled_from(INVALID[name])),
            "how": draw(st.sampled_from(["direct", "factory"])), "no_session": draw(st.integers(0, 9)) == 0, "old_steps": draw(st.integers(0, 2))}


def bad_value(name, value):
    if name == "dtype" and value == "numpy":
        return np.float64
    if name == "session" and value == "class":
        return tf.Session
    if name == "stepsize_schedule" and isinstance(value, str):
        return LackingNext() if value == "no next" else LackingOther(value[3:])
    return value


def run_c37(case, ctx):
    with World(threads=1) as world:
        params = [tf.Variable([0.0, 1.0], dtype=tf.float64), tf.Variable([1.0, 3.0], dtype=tf.float64)]
        kwargs = {"cost_fun": (lambda p: tf.reduce_sum(tf.square(p))) if case["method"] == "SVGD" else (lambda ps: tf.add_n([tf.reduce_sum(tf.square(p)) for p in ps])),
                  "particles" if case["method"] == "SVGD" else "params": params, "session": world.session}
        valid = dict(kwargs)
        if case["no_session"]:
            name, value = "session", None       # and none is active
        else:
            name, value = case["name"], bad_value(case["name"], case["value"])
        kwargs[name] = value
        session = world.session
        session.run(tf.variables_initializer(params))
        params[0].load(np.array([4.0, -2.0]), session)

        def build(arguments):
            if case["how"] == "direct":
                return sampler_class(case["method"])(**arguments)
            factory = mod("pysgmcmc.sampling").Sampler
            return factory.get_sampler(getattr(factory, case["method"]), **arguments)

        try:
            with sut("constructing %s with %s=%r" % (case["method"], name, value), allow=(AssertionError, ValueError, TypeError)):
                sampler = build(kwargs)
        except (AssertionError, ValueError, TypeError):
            pass
        else:
            raise Violation("%s accepted %s=%r" % (case["method"], name, value))
        require(same(session.run(params[0]), np.array([4.0, -2.0])) and same(session.run(params[1]), np.array([1.0, 3.0])), "a rejected construction changed the parameters")
        # and the valid arguments are still accepted
        with sut("constructing %s after a rejected construction" % case["method"]):
            sampler = build(valid)
        initialize_rest(world)
        with sut("stepping"):
            sample, _ = next(sampler)
        require(np.max(np.abs(np.array(sample[0]) - [4.0, -2.0])) < 1.0, "the chain started at %s", sample)
    ctx.label(case["method"], name)
    ctx.nontrivial()


@st.composite
def feed_cases(draw):
    case = draw(any_sampler(max_steps=3, max_burn_in=2))
    case["bad"] = draw(st.sampled_from([3, "feed", [1, 2], 0.5]))
    case["at"] = draw(st.integers(0, 3))
    return case


def run_feed(case, ctx):
    """A feed_dict that is none is rejected before the step uses anything."""
    with World() as world:
        params = world.make_params(case)
        cost = Cost({"a": [1.0], "q": [0.5], "s": 0.0, "w": 0.0, "d": 0.0}, dimension(case), case["dtype"])
        schedule, drawn = Schedule(case["eps"]), []

        def batches():
            while True:
                drawn.append(1)
                yield {}
        sampler = construct(case["method"], params, cost_function(case, cost), world.session, case, schedule, batch_generator=batches())
        world.initialize()
        follower = follow(world, params, case["method"], sampler, case, cost)
        for t in range(4):
            if t == case["at"]:
                before = world.session.run(params)
                try:
                    with sut("a step with feed_dict=%r" % (case["bad"],), allow=(AssertionError, ValueError, TypeError)):
                        sampler.__next__(case["bad"])
                except (AssertionError, ValueError, TypeError):
                    pass
                else:
                    raise Violation("a step accepted feed_dict=%r" % (case["bad"],))
                require(all(same(a, b) for a, b in zip(before, world.session.run(params))), "a rejected step moved the parameters")
                require((schedule.calls, len(schedule.updates), len(drawn)) == (t, t, t), "a rejected step used (stepsize, update, batch): %s",
                        (schedule.calls, len(schedule.updates), len(drawn)))
            if not follower.step(case["eps"][min(t, len(case["eps"]) - 1)]):
                break
    label(case, ctx, follower)
    ctx.nontrivial()


GENERATOR_INVALID = {"batch_size": [0, -1, -20, 2.0, "5", None, [3]], "seed": [-1, 2 ** 32, 1.5, "1", 2 ** 40, [1], 0.0, ""], "y": [-1, 1, 3, -3]}
EVERY_GENERATOR = [{"shuffled": shuffled, "n": 12, "b": 5, "name": name, "value": value, "seed": 3}
                   for shuffled in (False, True) for name in sorted(GENERATOR_INVALID) for value in GENERATOR_INVALID[name]]


@st.composite
def generator_cases(draw):
    name = draw(st.sampled_from(sorted(GENERATOR_INVALID)))
    return {"shuffled": draw(st.booleans()), "n": draw(st.integers(4, 30)), "b": draw(st.integers(1, 35)), "name": name,
            "value": draw(st.sampled_from(GENERATOR_INVALID[name])), "seed": draw(st.one_of(st.none(), seeds32))}


def run_generator(case, ctx):
    m = mod("pysgmcmc.data_batches")
    fun = m.generate_shuffled_batches if case["shuffled"] else m.generate_batches
    x, y = np.arange(2.0 * case["n"]).reshape(-1, 2), np.arange(1.0 * case["n"])
    kwargs = {"batch_size": case["b"], "seed": case["seed"]}
    with tf.Graph().as_default():
        placeholders = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
    with sut("drawing batches"):
        require(len(next(fun(x, y, *placeholders, **kwargs))) == 2, "no batch for valid arguments")
    if case["name"] == "y":
        y = np.arange(1.0 * case["n"] + case["value"])
    else:
        kwargs[case["name"]] = case["value"]
    try:
        with sut("a batch generator with %s" % kwargs, allow=(AssertionError, ValueError, TypeError)):
            batch = next(fun(x, y, *placeholders, **kwargs))
    except (AssertionError, ValueError, TypeError):
        pass
    else:
        raise Violation("a batch generator for %d data points, %d labels accepts %s and gives %s" % (len(x), len(y), kwargs, batch))
    ctx.label(case["name"])
    ctx.nontrivial()


NOISE = "noise is observed by fetching the random ops of a step together with it"
CHECKS = {
    "C35": lambda: ([Part("faults", c35_cases(), run_c35, 150, 2500), Part("finite", finite_cases(), run_finite, 40, 500)],
                    "sampler x sequence of steps and faults (minibatch source, schedule, feeds, value or gradient of the cost); non-trivial: at least one fault",
                    [NOISE, "nothing is claimed about momenta and preconditioners after a failure during evaluation"]),
    "C36": lambda: ([Part("next to others", c36_cases(), run_c36, 150, 2500)],
                    "sampler x states of its parameters x other samplers and variables; non-trivial: parameters moved before, or another sampler", [NOISE]),
    "C37": lambda: ([Part("arguments", c37_cases(), run_c37, 60, 1000, explicit=EVERY_ARGUMENT), Part("feeds", feed_cases(), run_feed, 40, 500),
                     Part("generators", generator_cases(), run_generator, 150, 1500, explicit=EVERY_GENERATOR)],
                    "one invalid argument or feed at a time; every case counts", []),
}
