"""C10, C15, C19-C21: how samplers treat schedules, burn-in, parameters, batches and factory arguments."""
import itertools
import sys

import numpy as np
from hypothesis import strategies as st

from pbt.checks.steps import HYPER, LONG_STEPSIZE, STEPSIZE, VERY_LONG, burn_in_limit, burn_in_of, maybe_seed
from pbt.checks.svgd import Nameless, hyper_svgd, large_particle_specs, particle_specs
from pbt.core import Part, Violation, require, sut
from pbt.drive import DEFAULTS, closest, construct, follow
from pbt.obs import METHODS, Cost, Schedule, World, check_structure, cost_specs, flatten, large_param_specs, listed, param_specs, sampler_class, stepsizes
from pbt.shims import tf
from pbt.util import floats, mod, same, seeds32

ALL = METHODS + ("SVGD",)


@st.composite
def any_sampler(draw, max_steps=10, methods=ALL, max_burn_in=8, dtype=None, kind="short"):
    """`kind`: "long" (or "very long") chains, also across long burn-in phases, and "large" parameters, also many of them."""
    method = draw(st.sampled_from(methods))
    case = {"method": method}
    if kind == "large":
        case.update(draw(large_particle_specs() if method == "SVGD" else large_param_specs()))
    else:
        case.update(draw(particle_specs(max_n=5, max_d=3, closest_distance=0.3) if method == "SVGD" else param_specs(max_params=3)))
    if dtype:
        case["dtype"] = dtype
    if kind == "very long":
        case["dtype"] = "float64"
    case["steps"] = draw(st.integers(*VERY_LONG) if kind == "very long" else st.integers(50, 200 if method != "SVGD" else 100) if kind == "long" else st.integers(2, max_steps))
    max_burn_in = burn_in_limit(kind, case["steps"], max_burn_in)
    case["eps"] = draw(stepsizes(*(LONG_STEPSIZE if "long" in kind else STEPSIZE)[method], case["steps"]))
    if method == "SVGD":
        case["hyper"] = draw(hyper_svgd())
    elif method == "RelativisticSGHMC":
        case["hyper"] = draw(HYPER[method]())
        if 2 * case["hyper"].get("D", 1.0) < max(case["eps"]) * case["hyper"].get("Bhat", 0.0):
            case["hyper"]["Bhat"] = 0.0
    else:
        case["hyper"] = draw(HYPER[method](max_burn_in=max_burn_in))
    case["seed"] = draw(maybe_seed)
    return case


def dimension(case):
    """Number of elements a cost sees: one particle's, or those of all parameters."""
    return case["shapes"][0][0] if case["method"] == "SVGD" else len(case["start"])


def cost_function(case, cost):
    return (lambda particle: cost.tensor([particle])) if case["method"] == "SVGD" else cost.tensor


def label(case, ctx, follower=None):
    ctx.label(case["method"], case["dtype"])
    if case["method"] in ("SGHMC", "SGLD"):
        b = burn_in_of(case)
        ctx.label("no burn-in" if b == 0 else "across burn-in" if b < case["steps"] else "within burn-in")
    for flag in ("weak", "unmapped", "diverged"):
        if follower is not None and getattr(follower, flag):
            ctx.label(flag)


# C10 ------------------------------------------------------------------------------------------------------------------

class FeedbackSchedule(Schedule):
    """The next stepsize depends on the reported sample and cost."""

    def __init__(self, values, initial_value=None):
        super().__init__(values, initial_value)
        self.original = list(self.values)

    def update(self, *args, **kwargs):
        super().update(*args, **kwargs)
        sample, cost = reported(args, kwargs)
        total = float(np.sum(np.square(np.asarray(cost, "float64")))) + float(np.sum(np.abs(flatten(sample if isinstance(sample, list) else [sample]))))
        self.values = [v * (0.5 + 1.0 / (1.0 + total)) for v in self.original]


def schedule_subclass():
    """A schedule built on the base class that is meant for this."""
    base = mod("pysgmcmc.stepsize_schedules").StepsizeSchedule

    class Subclass(base):
        def __init__(self, values, initial_value):
            super().__init__(values[0] if initial_value is None else initial_value)
            self.values, self.calls, self.updates = list(values), 0, []

        def __next__(self):
            self.calls += 1
            return self.values[min(self.calls, len(self.values)) - 1]

        def update(self, *args, **kwargs):
            self.updates.append((args, kwargs))

    return Subclass


def reported(args, kwargs):
    """Sample and cost of a call of `update`."""
    values = list(args) + list(kwargs.values())
    require(len(values) == 2, "the schedule's update was called with %d arguments instead of sample and cost", len(values))
    return values


@st.composite
def c10_cases(draw, kind="short"):
    case = draw(any_sampler(kind=kind))
    case["cost"] = draw(cost_specs())
    case["schedule"] = draw(st.sampled_from(["recorded", "recorded", "recorded", "feedback", "feedback", "subclass", "constant", "default"]))
    case["initial_eps"] = draw(st.sampled_from([0.01, 0.7, 1e-5, 0.2, 0, None]))
    return case


DEFAULT_EPS = {"SGHMC": 0.01, "SGLD": 0.01, "RelativisticSGHMC": 0.001, "SVGD": 0.1}


def run_c10(case, ctx):
    kind, schedule = case["schedule"], None
    if kind in ("recorded", "feedback"):
        schedule = (Schedule if kind == "recorded" else FeedbackSchedule)(case["eps"], case["initial_eps"])
    elif kind == "subclass":
        schedule = schedule_subclass()(case["eps"], case["initial_eps"])
    elif kind == "constant":
        schedule = mod("pysgmcmc.stepsize_schedules").ConstantStepsizeSchedule(case["eps"][0])
    with World() as world:
        params = world.make_params(case)
        cost = Cost(case["cost"], dimension(case), case["dtype"])
        sampler = construct(case["method"], params, cost_function(case, cost), world.session, case, schedule)
        world.initialize()
        calls = lambda: (schedule.calls, len(schedule.updates))
        watched = kind in ("recorded", "feedback", "subclass")
        if watched:
            require(calls() == (0, 0), "after construction, the schedule was used %s times (next, update)", calls())
        follower = follow(world, params, case["method"], sampler, case, cost)
        done = 0
        for t in range(case["steps"]):
            if watched:
                eps = schedule.values[min(t, len(schedule.values) - 1)]
            else:
                eps = case["eps"][0] if kind == "constant" else DEFAULT_EPS[case["method"]]
            if not follower.step(eps):
                break
            if watched:
                require(calls() == (t + 1, t + 1), "after %d steps the schedule was used %s times (next, update)", t + 1, calls())
                sample, cost_value = reported(*schedule.updates[-1])
                pairs = list(zip(listed(sample, len(params)), follower.arrays))
                require(len(listed(sample, len(params))) == len(params) and all(same(a, b) for a, b in pairs),
                        "step %d: the schedule is told sample %s, the step returned %s", t + 1, sample, follower.sample)
                require(isinstance(sample, list) == isinstance(follower.sample, list), "step %d: the schedule is told a %s, the step returned a %s",
                        t + 1, type(sample).__name__, type(follower.sample).__name__)
                require(same(cost_value, follower.cost_value), "step %d: the schedule is told cost %s, the step returned %s",
                        t + 1, cost_value, follower.cost_value)
            done += 1
    label(case, ctx, follower)
    ctx.label("schedule " + kind)
    ctx.nontrivial(done >= 2 and not follower.unmapped and not follower.weak)


constant_cases = st.fixed_dictionaries({
    "value": st.one_of(floats(0, 10), st.floats(1e-30, 1e30), st.integers(0, 5)),
    "ops": st.lists(st.sampled_from(["next", "islice", "update", "update_kw", "loop"]), min_size=1, max_size=12)})


def run_constant(case, ctx):
    with sut("using a ConstantStepsizeSchedule"):
        schedule = mod("pysgmcmc.stepsize_schedules").ConstantStepsizeSchedule(case["value"])
        other = mod("pysgmcmc.stepsize_schedules").ConstantStepsizeSchedule(0.125)
        for op in case["ops"]:
            values = []
            if op == "next":
                values = [next(schedule)]
            elif op == "islice":
                values = list(itertools.islice(schedule, 4))
            elif op == "loop":
                for v in schedule:
                    values.append(v)
                    if len(values) == 3:
                        break
            elif op == "update":
                schedule.update([np.zeros(3)], np.array(2.0))
            else:
                schedule.update(cost=1.0, sample=0.0)
            require(all(v == case["value"] for v in values), "constant schedule of %r gave %s", case["value"], values)
            require(schedule.initial_value == case["value"], "initial value of constant schedule %r became %r", case["value"], schedule.initial_value)
        require(next(other) == 0.125, "another schedule was affected")
    ctx.nontrivial(len(case["ops"]) > 2)


# C15 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c15_cases(draw, long=False):
    method = draw(st.sampled_from(["SGHMC", "SGLD"]))
    case = {"method": method}
    case.update(draw(param_specs(max_params=3)))
    case["dtype"] = "float64"
    case["start"] = [0.0] * len(case["start"])
    case["burn_in"] = draw(st.integers(*VERY_LONG) if long == "very" else st.integers(9, 120) if long else st.integers(0, 8))
    if long == "very" and draw(st.booleans()):
        case["burn_in"] = draw(st.integers(0, 8))
    after = draw(st.integers(200, 1500) if long == "very" else st.integers(1, 100) if long else st.integers(1, 6))
    case["steps"] = case["burn_in"] + after
    size = st.sampled_from([0.5, 2.0, 5.0, 30.0, 200.0])
    n = len(case["start"])
    # gradients as sign * scale, per step and element
    gradients = []
    for _ in range(min(case["steps"], 14)):
        scale = draw(size)
        gradients.append([float("%.4g" % (draw(st.sampled_from([-1, 1])) * scale * draw(st.floats(0.7, 1.4)))) for _ in range(n)])
    # (long chains: repeated with growing scale)
    case["gradients"] = [[g * (1 + t // 14 * 0.37) for g in gradients[t % len(gradients)]] for t in range(case["steps"])]
    case["eps"] = 0.5 if method == "SGHMC" else draw(st.sampled_from([0.1, 0.01, 1.0]))
    case["A"] = draw(st.sampled_from([1.0, 0.5, 2.0]))
    case["seed"] = draw(maybe_seed)
    case["look"] = draw(st.booleans())
    return case


def inferred_preconditioners(case, burn_in, watch=True):
    """Preconditioner of each step, from displacements without noise: -eps A minv G (SGLD), -eps^2 minv G (SGHMC).

    Also how far off each can be: the samplers keep a noise of standard deviation 1e-8 even where it should vanish.
    """
    sizes = [int(np.prod(s, dtype=int)) for s in case["shapes"]]
    eps, result, errors = case["eps"], [], []
    with World() as world:
        params = world.make_params(case)
        G = tf.placeholder(tf.float64, [sum(sizes)], name="gradient")
        cost = lambda ps: tf.reduce_sum(G * tf.concat([tf.reshape(p, [-1]) for p in ps], axis=0))
        hyper = {"burn_in_steps": burn_in, "scale_grad": 1e30}
        hyper.update({"mdecay": 1.0} if case["method"] == "SGHMC" else {"A": case["A"]})
        batches = ({G: np.array(g)} for g in case["gradients"])
        sampler = construct(case["method"], params, cost, world.session, dict(case, hyper=hyper), Schedule([eps]), batch_generator=batches)
        world.initialize()
        x = flatten(world.session.run(params))
        for t, g in enumerate(np.array(case["gradients"])):
            if watch:
                for _ in range(2 if case["look"] else 1):
                    with sut("is_burning_in"):
                        burning = sampler.is_burning_in
                    require(bool(burning) == (t < burn_in), "after %d steps with burn_in_steps=%d, is_burning_in is %s", t, burn_in, burning)
            with sut("step %d" % (t + 1)):
                sample, _ = next(sampler)
            new = flatten(listed(sample, len(params)))
            factor = eps ** 2 if case["method"] == "SGHMC" else eps * case["A"]
            result.append((x - new) / (factor * g))
            errors.append(8e-8 / (factor * np.abs(g)))
            x = new
        if watch:
            require(bool(sampler.is_burning_in) == (case["steps"] < burn_in), "is_burning_in is wrong after the last step")
    return np.array(result), np.array(errors)


def run_c15(case, ctx):
    minv, errors = inferred_preconditioners(case, case["burn_in"])
    b = case["burn_in"]
    close = lambda a, c, error: np.all(np.abs(a - c) <= 1e-6 * (np.abs(a) + np.abs(c)) + error + 1e-9)
    frozen = minv[b - 1] if b else np.ones(minv.shape[1])
    for t in range(b, case["steps"]):
        require(close(minv[t], frozen, errors[t] + (errors[b - 1] if b else 0)), "step %d after %d burn-in steps uses preconditioner %s, that of the last burn-in step was %s",
                t + 1, b, minv[t], frozen)
    if b:
        # a sampler that burns in all the time must do the same in the first b steps ...
        twin, _ = inferred_preconditioners(case, case["steps"] + 2, watch=False)
        for t in range(b):
            require(close(minv[t], twin[t], 2 * errors[t]), "burn-in step %d of %d uses preconditioner %s, with longer burn-in %s", t + 1, b, minv[t], twin[t])
        # ... and its preconditioner follows the gradients
        window = 1 if b < 200 else 50       # (adaptation slows down)
        for t in range(window, case["steps"]):
            moved = np.abs(twin[t] - twin[t - window]) > 1e-6 * np.abs(twin[t])
            require(moved.any(), "the preconditioner did not adapt in burn-in step %d: %s", t + 1, twin[t])
    ctx.label(case["method"], "no burn-in" if b == 0 else "burn-in")
    ctx.nontrivial(case["steps"] > b + 1 or b > 1)


# C19 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c19_cases(draw, kind="short"):
    method = draw(st.sampled_from(ALL))
    case = {"method": method}
    if kind == "large":
        case.update(draw(large_particle_specs() if method == "SVGD" else large_param_specs()))
    else:
        case.update(draw(particle_specs(max_n=4, max_d=3, closest_distance=0.3) if method == "SVGD" else param_specs(max_params=3)))
    n = len(case["start"])
    q = [draw(st.sampled_from([-1, 1])) * draw(st.floats(0.5, 3.0).map(lambda v: round(v, 2))) for _ in range(min(n, 12))]
    case["q"] = [q[k % len(q)] for k in range(n)]
    case["burn_in"] = draw(st.one_of(st.integers(0, 50), st.integers(0, 3000)) if kind == "very long" else st.integers(0, 30 if kind == "long" else 5))
    case["seed"] = draw(maybe_seed)
    other = st.sampled_from(METHODS)
    case["other"] = draw(other) if method != "SVGD" and draw(st.booleans()) else None
    ops = []
    for _ in range(draw(st.integers(12, 40) if "long" in kind else st.integers(2, 9))):
        op = draw(st.sampled_from(["next", "next", "islice", "loop", "assign", "assign", "load", "reinit", "global", "assign_all"]
                                  + (["other", "other"] if case["other"] else [])))
        if op in ("islice", "loop"):
            ops.append([op, draw(st.one_of(st.integers(1, 400), st.integers(400, 1500)) if kind == "very long" else st.integers(1, 12 if kind == "long" else 3))])
        elif op in ("assign", "load"):
            ops.append([op, draw(st.integers(0, len(case["shapes"]) - 1)), draw(floats(2.0, 6.0))])
        elif op == "assign_all":
            ops.append([op, draw(floats(2.0, 6.0))])
        elif op == "reinit":
            ops.append([op, draw(st.integers(0, len(case["shapes"]) - 1))])
        else:
            ops.append([op])
    case["ops"] = ops
    return case


SMALL_EPS = {"SGHMC": 1e-3, "SGLD": 1e-4, "RelativisticSGHMC": 1e-2, "SVGD": 1e-3}


def small_step_sampler(case, method, params, world, q):
    hyper = {"burn_in_steps": case["burn_in"]} if method in ("SGHMC", "SGLD") else {}
    dtype = np.dtype(case["dtype"])
    if method == "SVGD":
        cost = lambda particle: tf.reduce_sum(q[:len(case["start"]) // len(params)].astype(dtype) * particle)
    else:
        cost = lambda ps: tf.reduce_sum(q.astype(dtype) * tf.concat([tf.reshape(p, [-1]) for p in ps], axis=0))
    return construct(method, params, cost, world.session, dict(case, hyper=hyper), Schedule([SMALL_EPS[method]]))


def run_c19(case, ctx):
    q, dtype, method = np.array(case["q"]), np.dtype(case["dtype"]), case["method"]
    with World() as world:
        params = world.make_params(case)
        start = [np.array(v) for v in params_start(case)]
        sampler = small_step_sampler(case, method, params, world, q)
        other = small_step_sampler(case, case["other"], params, world, q) if case["other"] else None
        world.initialize()
        session, kept, moved, steps = world.session, [], 0, 0

        def check(result, before, where):
            require(isinstance(result, tuple) and len(result) == 2, "%s returned %r", where, result)
            sample, cost = result
            arrays = check_structure(sample, params, where)
            now = session.run(params)
            for a, v in zip(arrays, now):
                require(same(a, v), "%s returned %s, but the parameter then holds %s", where, a, v)
            x = flatten(before)
            if method == "SVGD" and where == "sampler":
                rows = x.reshape(len(params), -1)
                want, size = rows @ q[:rows.shape[1]], np.abs(rows) @ np.abs(q[:rows.shape[1]])
            else:
                want, size = np.array(np.dot(q, x)), np.array(np.dot(np.abs(q), np.abs(x)))
            got = np.asarray(cost, "float64")
            require(got.shape == want.shape and np.all(np.abs(got - want) <= (1e-10 if dtype == "float64" else 1e-4) * (size + 1)),
                    "%s: cost %s, but that of the current parameter values %s is %s", where, got, x, want)
            jump = np.max(np.abs(flatten(arrays) - x))
            require(jump < 0.45, "%s started from values other than the current ones: it went from %s to %s",
                    where, x, flatten(arrays))
            if len(arrays) == len(kept) == 0:
                return
            for a in arrays:
                kept.append((a, np.array(a)))

        for op in case["ops"]:
            name = op[0]
            before = session.run(params)
            if name == "next":
                with sut("next"):
                    result = next(sampler)
                check(result, before, "sampler")
                steps += 1
            elif name == "islice":
                with sut("islice"):
                    iterator = itertools.islice(sampler, op[1])
                for _ in range(op[1]):
                    before = session.run(params)
                    with sut("islice"):
                        result = next(iterator)
                    check(result, before, "sampler")
                    steps += 1
            elif name == "loop":
                count = 0
                with sut("iterating"):
                    for result in sampler:
                        check(result, before, "sampler")
                        before = session.run(params)
                        count += 1
                        steps += 1
                        if count == op[1]:
                            break
            elif name == "other":
                with sut("next"):
                    result = next(other)
                check(result, before, "second sampler")
            elif name == "global":
                world.initialize()
                for v, s in zip(session.run(params), start):
                    require(same(v, s), "after initialisation a parameter holds %s instead of %s", v, s)
                moved += steps > 0
            elif name == "reinit":
                session.run(params[op[1]].initializer)
                moved += steps > 0
            else:
                chosen = [op[1]] if name in ("assign", "load") else range(len(params))
                for i in chosen:
                    shape = params[i].shape.as_list()
                    # particles have to stay distinct
                    value = (op[-1] * (1 if i % 2 else -1) + 0.5 * i + np.arange(int(np.prod(shape, dtype=int))).reshape(shape) % 40 / 8.0).astype(dtype)
                    if name == "load":
                        params[i].load(value, session)
                    else:
                        world_assign(world, params[i], value)
                moved += steps > 0
                before = session.run(params)
        for a, copy in kept:
            require(same(a, copy), "a sample %s changed to %s when the chain went on", copy, a)
    ctx.label(method, "%d parameter(s)" % len(params), dtype.name, "two samplers" if other else "one sampler")
    if method in ("SGHMC", "SGLD"):
        ctx.label("across burn-in" if 0 < case["burn_in"] < steps else "one phase")
    ctx.nontrivial(steps >= 2 and (moved > 0 or other is not None))


def params_start(case):
    offset = 0
    for shape in case["shapes"]:
        size = int(np.prod(shape, dtype=int))
        yield np.asarray(case["start"][offset:offset + size], case["dtype"]).reshape(shape)
        offset += size


def world_assign(world, param, value):
    world.session.run(tf.assign(param, value))


@st.composite
def modes_cases(draw, kind="short"):
    case = draw(any_sampler(max_steps=9, kind=kind))
    case["seed"] = draw(seeds32)
    case["cost"] = draw(cost_specs())
    case["modes"] = draw(st.lists(st.tuples(st.sampled_from(["next", "islice", "loop", "method", "iter", "empty_feed"]), st.integers(1, 3 if kind == "short" else 40)).map(list),
                                  min_size=1, max_size=5))
    return case


def run_modes(case, ctx):
    total = sum(1 if mode in ("next", "method", "empty_feed") else k for mode, k in case["modes"])
    results = []
    for plain in (True, False):
        with World(threads=1) as world:
            params = world.make_params(case)
            cost = Cost(case["cost"], dimension(case), case["dtype"])
            sampler = construct(case["method"], params, cost_function(case, cost), world.session, case, Schedule(case["eps"]))
            world.initialize()
            steps = []
            with sut("stepping"):
                if plain:
                    steps = [next(sampler) for _ in range(total)]
                for mode, k in ([] if plain else case["modes"]):
                    if mode == "next":
                        steps.append(next(sampler))
                    elif mode == "method":
                        steps.append(sampler.__next__())
                    elif mode == "empty_feed":
                        steps.append(sampler.__next__({}))
                    elif mode == "islice":
                        steps.extend(itertools.islice(sampler, k))
                    elif mode == "iter":
                        iterator = iter(sampler)
                        steps.extend(next(iterator) for _ in range(k))
                    else:
                        for i, step in enumerate(sampler):
                            steps.append(step)
                            if i + 1 == k:
                                break
            results.append(steps)
    a, b = results
    require(len(a) == len(b), "%d steps by next(), %d by %s", len(a), len(b), case["modes"])
    for t, ((x, u), (y, v)) in enumerate(zip(a, b)):
        equal = all(np.array_equal(p, q, equal_nan=True) for p, q in zip(listed(x, len(params)), listed(y, len(params))))
        require(equal and np.array_equal(u, v, equal_nan=True), "step %d differs between next() and %s: %s and %s", t + 1, case["modes"], x, y)
    ctx.nontrivial(total >= 2 and any(mode != "next" for mode, _ in case["modes"]))


# C20 ------------------------------------------------------------------------------------------------------------------

class FedCost(object):
    """scale * (b0 q.x + b1 sum a x^2 / 2) with the batch (b0, b1) and optionally a scale fed by the caller."""

    vector = False

    def __init__(self, case, scale_default):
        dtype = np.dtype(case["dtype"])
        self.base = Cost(case["cost"], dimension(case), dtype)
        self.dtype = dtype
        self.batch = tf.placeholder(dtype, [2], name="batch")
        self.scale = (tf.placeholder_with_default(np.asarray(scale_default, dtype), [], name="scale") if case["scale"] == "optional"
                      else tf.placeholder(dtype, [], name="scale") if case["scale"] == "needed" else None)

    def tensor(self, params):
        x = tf.concat([tf.reshape(p, [-1]) for p in params], axis=0)
        u = (self.batch[0] * tf.reduce_sum(self.base.q.astype(self.dtype) * x)
             + self.batch[1] * tf.reduce_sum(0.5 * self.base.a.astype(self.dtype) * x * x))
        return u if self.scale is None else self.scale * u

    def at(self, x, batch, scale):
        """cost, magnitude, gradient, magnitude"""
        q, a = self.base.q, self.base.a
        linear, square = batch[0] * np.sum(q * x), batch[1] * np.sum(0.5 * a * x * x)
        return (scale * (linear + square), abs(scale) * (abs(batch[0]) * np.sum(np.abs(q * x)) + abs(square)),
                scale * (batch[0] * q + batch[1] * a * x), abs(scale) * (np.abs(batch[0] * q) + np.abs(batch[1] * a * x)))


@st.composite
def c20_cases(draw, kind="short"):
    case = draw(any_sampler(max_burn_in=5, kind=kind))
    case["cost"] = {"a": [1.0, 0.5, 2.0], "q": [1.0, -2.0, 0.5], "s": 0.0, "w": 0.0, "d": 0.0}
    k = min(case["steps"], 12)
    batches = draw(st.lists(st.tuples(floats(-3.0, 3.0), floats(0.0, 2.0)).map(list), min_size=k, max_size=k, unique_by=tuple))
    # (long chains: no batch resembles another one)
    case["batches"] = [[b[0] + 7 * (t // k), b[1]] for t, b in zip(range(case["steps"]), batches * (case["steps"] // k + 1))]
    case["scale"] = draw(st.sampled_from(["none", "optional", "needed"]))
    feeds = [draw(st.one_of(st.none(), st.sampled_from([0.25, 0.5, 2.0, 3.0, -1.0]))) for _ in range(k)]
    case["feeds"] = (feeds * (case["steps"] // k + 1))[:case["steps"]]
    case["constant_batch"] = draw(st.integers(0, 4)) == 0
    case["reuse_feed"] = draw(st.booleans())
    case["stale_feed"] = draw(st.integers(0, 3)) == 0
    case["keyword"] = draw(st.booleans())
    return case


class CountingBatches(object):
    """A batch generator that is not a generator function, and ends after the last batch."""

    def __init__(self, placeholder, values):
        self.placeholder, self.values, self.drawn, self.handed = placeholder, values, 0, []

    def __iter__(self):
        return self

    def __next__(self):
        if self.drawn == len(self.values):
            raise StopIteration
        self.drawn += 1
        batch = {self.placeholder: np.array(self.values[self.drawn - 1])}
        self.handed.append((batch, dict(batch)))
        return batch


def run_c20(case, ctx):
    scale_default = 1.5
    with World() as world:
        params = world.make_params(case)
        cost = FedCost(case, scale_default)
        batches = CountingBatches(cost.batch, case["batches"])
        fun = (lambda particle: cost.tensor([particle])) if case["method"] == "SVGD" else cost.tensor
        more = {} if case["constant_batch"] else {"batch_generator": batches}
        sampler = construct(case["method"], params, fun, world.session, case, Schedule(case["eps"]), **more)
        world.initialize()
        require(batches.drawn == 0, "%d batches were drawn by the construction", batches.drawn)
        world.keyword = case["keyword"]
        follower = follow(world, params, case["method"], sampler, case, cost)
        done, reused = 0, {}
        for t in range(case["steps"]):
            feed, scale = {}, 1.0
            if case["reuse_feed"] and not case["constant_batch"]:
                feed = reused
            if case["scale"] != "none":
                scale = case["feeds"][t]
                if scale is None and case["scale"] == "needed":
                    scale = 0.75
                if scale is None:
                    scale = scale_default
                    feed.pop(cost.scale, None)
                else:
                    feed[cost.scale] = scale
            batch = case["batches"][t]
            if case["constant_batch"]:       # no generator: the caller feeds the batch
                feed[cost.batch] = batch
            elif case["stale_feed"] and t % 3 != 1:     # the generator's minibatch is the one that counts
                feed[cost.batch] = np.array([90.0, 80.0])
            args = [feed] if feed or t % 3 == 1 else []
            given = dict(feed)
            rows = follower.x if case["method"] == "SVGD" else [follower.x]
            values = [cost.at(row, batch, scale) for row in rows]
            if case["method"] == "SVGD":
                u, um, g, gm = [np.array([v[k] for v in values]) for k in range(4)]
            else:
                u, um, g, gm = values[0]
            following = follower.step(case["eps"][min(t, len(case["eps"]) - 1)], *args, grad=g, grad_magnitude=gm, cost=u, cost_magnitude=um)
            require(len(feed) == len(given) and all(k in feed and feed[k] is v for k, v in given.items()),
                    "step %d changed the caller's feeds from %s to %s", t + 1, given, feed)
            for batch_given, copy in batches.handed:
                require(batch_given.keys() == copy.keys() and all(batch_given[k] is v for k, v in copy.items()), "step %d changed a minibatch's dictionary", t + 1)
            if not following:
                break
            done += 1
            if not case["constant_batch"]:
                require(batches.drawn == t + 1, "after %d steps, %d batches were drawn", t + 1, batches.drawn)
    label(case, ctx, follower)
    ctx.label("scale " + case["scale"], "no generator" if case["constant_batch"] else "generator")
    ctx.nontrivial(done >= 2 and not follower.unmapped and not follower.weak)


# C21 ------------------------------------------------------------------------------------------------------------------

@st.composite
def c21_cases(draw):
    case = draw(any_sampler(max_steps=6, max_burn_in=4))
    case["cost"] = draw(cost_specs())
    case["default_schedule"] = draw(st.booleans())
    case["omit_session"] = draw(st.booleans())
    case["omit_dtype"] = draw(st.booleans())
    if case["omit_dtype"]:
        case["dtype"] = "float64"
    case["explicit_none"] = draw(st.lists(st.sampled_from(["batch_generator", "seed"]), unique=True))
    case["nameless"] = draw(st.booleans())
    case["imported_in_session"] = draw(st.integers(0, 3)) == 0
    case["other_default"] = draw(st.booleans())
    return case


def import_in_session():
    """Import the code under test anew while another session is active, which is then closed."""
    for name in [n for n in sys.modules if n.split(".")[0] == "pysgmcmc"]:
        del sys.modules[name]
    with tf.Graph().as_default(), tf.Session():
        mod("pysgmcmc.sampling")
        for method in ALL:
            sampler_class(method)


def build(case, world, how):
    """Sampler of a case by the factory or directly."""
    params = world.make_params(case)
    cost = Cost(case["cost"], dimension(case), case["dtype"])
    fun = cost_function(case, cost)
    kwargs = dict(case["hyper"])
    kwargs["particles" if case["method"] == "SVGD" else "params"] = params
    kwargs["cost_fun"] = Nameless(fun) if case["nameless"] else fun
    if not case["omit_dtype"]:
        kwargs["dtype"] = tf.as_dtype(case["dtype"])
    if case["seed"] is not None:
        kwargs["seed"] = case["seed"]
    for name in case["explicit_none"]:
        kwargs.setdefault(name, None)
    schedule = None
    if not case["default_schedule"]:
        schedule = kwargs["stepsize_schedule"] = Schedule(case["eps"])
    if not case["omit_session"]:
        kwargs["session"] = world.session
    default = world.session.as_default()
    if case["other_default"] and not case["omit_session"]:     # the session that is given counts, not the active one
        default = tf.Session(graph=world.graph).as_default()
    if how == "direct":
        with sut("constructing " + case["method"]), default:
            sampler = sampler_class(case["method"])(**kwargs)
    else:
        factory = mod("pysgmcmc.sampling").Sampler
        with sut("Sampler.get_sampler"), default:
            sampler = factory.get_sampler(getattr(factory, case["method"]), **kwargs)
    world.initialize()
    return params, cost, sampler


def run_c21(case, ctx):
    chains = []
    if case["imported_in_session"]:
        import_in_session()
    for how in ("factory", "direct") if case["seed"] is not None else ("factory",):
        with World(threads=1) as world:
            params, cost, sampler = build(case, world, how)
            require(type(sampler) is sampler_class(case["method"]), "the factory returned a %s for %s", type(sampler).__name__, case["method"])
            steps = []
            follower = follow(world, params, case["method"], sampler, case, cost)
            for t in range(case["steps"]):
                eps = DEFAULT_EPS[case["method"]] if case["default_schedule"] else case["eps"][min(t, len(case["eps"]) - 1)]
                if how == "factory":
                    if not follower.step(eps):
                        break
                    steps.append((follower.sample, follower.cost_value))
                else:
                    with sut("sampler step"):
                        steps.append(next(sampler))
            chains.append(steps)
    if len(chains) == 2:
        for t, ((x, u), (y, v)) in enumerate(zip(*chains)):
            equal = all(same(a, b) for a, b in zip(listed(x, len(params)), listed(y, len(params))))
            require(equal and same(u, v), "step %d of the factory's sampler gives %s, that of a directly constructed one %s", t + 1, x, y)
    label(case, ctx, follower)
    ctx.label("omits " + ", ".join(sorted(set(DEFAULT_NAMES[case["method"]]) - set(case["hyper"]))))
    ctx.nontrivial(len(chains[0]) >= 2)


DEFAULT_NAMES = {"SGHMC": ["burn_in_steps", "mdecay", "scale_grad"], "SGLD": ["burn_in_steps", "A", "scale_grad"],
                 "RelativisticSGHMC": ["mass", "speed_of_light", "D", "Bhat"], "SVGD": ["alpha", "fudge_factor"]}
COMMON = ["cost_fun", "batch_generator", "stepsize_schedule", "session", "dtype", "seed"]


def valid_names(method):
    return set(COMMON + DEFAULT_NAMES[method] + (["particles"] if method == "SVGD" else ["params"]))


EVERY_NAME = sorted(set(itertools.chain(*(valid_names(m) for m in ALL))))


@st.composite
def invalid_cases(draw):
    kind = draw(st.sampled_from(["name", "name", "missing", "method"]))
    method = draw(st.sampled_from(ALL))
    case = {"kind": kind, "method": method}
    if kind == "name":
        case["names"] = draw(st.lists(st.one_of(
            st.sampled_from(sorted(set(EVERY_NAME) - valid_names(method))),
            st.sampled_from(["unknown", "stepsize", "epsilon", "Params", "COST_FUN", "mdecay_", "_", "args", "kwargs", "param", "n_iterations"]),
            st.text(alphabet="abcdefg_{}%", min_size=1, max_size=8).filter(lambda s: s not in EVERY_NAME)), min_size=1, max_size=2, unique=True))
        case["value"] = draw(st.sampled_from([None, 0, 1.0, "x"]))
    elif kind == "missing":
        mandatory = ["particles" if method == "SVGD" else "params", "cost_fun"]
        case["omit"] = draw(st.sampled_from([[mandatory[0]], [mandatory[1]], mandatory]))
    else:
        case["value"] = draw(st.sampled_from(["SGHMC", "SGLD", "sghmc", "", 0, 1, None, "HMC", "SVGD", 2.5, True, ["SGHMC"]]))
    case["with_session"] = draw(st.booleans())
    return case


def run_invalid(case, ctx):
    method = case["method"]
    with World() as world:
        factory = mod("pysgmcmc.sampling").Sampler
        particles = [tf.Variable([0.0, 1.0], dtype=tf.float64), tf.Variable([1.0, 3.0], dtype=tf.float64)]
        kwargs = {"particles" if method == "SVGD" else "params": particles,
                  "cost_fun": (lambda p: tf.reduce_sum(p)) if method == "SVGD" else (lambda ps: tf.add_n([tf.reduce_sum(p) for p in ps]))}
        if case["with_session"]:
            kwargs["session"] = world.session
        requested = getattr(factory, method)
        if case["kind"] == "name":
            kwargs.update({name: case["value"] for name in case["names"]})
        elif case["kind"] == "missing":
            for name in case["omit"]:
                del kwargs[name]
        else:
            requested = case["value"]
        with world.session.as_default():
            try:
                with sut("Sampler.get_sampler", allow=(ValueError,)):
                    sampler = factory.get_sampler(requested, **kwargs)
            except ValueError:
                ctx.nontrivial()
            else:
                raise Violation("the factory accepted %s and returned a %s" % (case, type(sampler).__name__))
    ctx.label(case["kind"])


def run_default_burn_in(case, ctx):
    """burn_in_steps is 3000 unless given."""
    given = {} if case.get("burn_in_steps") is None else {"burn_in_steps": case["burn_in_steps"]}
    burn_in = given.get("burn_in_steps", 3000)
    with World(threads=1) as world:
        p = tf.Variable([1.0, -1.0], dtype=tf.float64)
        kwargs = dict(params=[p], cost_fun=lambda ps: tf.reduce_sum(ps[0]), session=world.session, **given)
        factory = mod("pysgmcmc.sampling").Sampler
        with sut("constructing"):
            sampler = (factory.get_sampler(getattr(factory, case["method"]), **kwargs) if case["factory"]
                       else sampler_class(case["method"])(**kwargs))
        world.initialize()
        for t in range(burn_in + 1):
            require(sampler.is_burning_in == (t < burn_in), "after %d steps with %s burn-in, is_burning_in is %s", t, given or "default", sampler.is_burning_in)
            with sut("step"):
                next(sampler)
    ctx.nontrivial()


NOISE = "noise is observed by fetching the random ops of a step together with it"
CHECKS = {
    "C10": lambda: ([Part("chain", c10_cases(), run_c10, 200, 3000), Part("long", c10_cases(kind="long"), run_c10, 20, 200),
                     Part("very long", c10_cases(kind="very long"), run_c10, 6, 60, portion=1), Part("constant", constant_cases, run_constant, 100, 1000)],
                    "sampler x schedule (listed values, feedback from cost, constant, default) x parameters x cost; "
                    "non-trivial: at least two steps compared with the model", [NOISE]),
    "C15": lambda: ([Part("freeze", c15_cases(), run_c15, 100, 2000), Part("long", c15_cases(long=True), run_c15, 20, 200),
                     Part("very long", c15_cases(long="very"), run_c15, 6, 60, portion=1),
                     Part("default burn-in", None, run_default_burn_in, 0,
                          explicit=[{"method": m, "factory": f} for m in ("SGHMC", "SGLD") for f in (False, True)]
                          + [{"method": m, "factory": False, "burn_in_steps": 12000} for m in ("SGHMC", "SGLD")])],
                    "gradient streams x burn-in lengths; non-trivial: two steps after burn-in or two in it",
                    ["preconditioners are inferred from displacements of chains whose noise is scaled away (scale_grad=1e30)"]),
    "C19": lambda: ([Part("history", c19_cases(), run_c19, 120, 2500), Part("modes", modes_cases(), run_modes, 60, 800),
                     Part("large", c19_cases(kind="large"), run_c19, 24, 300), Part("long", c19_cases(kind="long"), run_c19, 24, 300),
                     Part("long modes", modes_cases(kind="long"), run_modes, 12, 150), Part("very long", c19_cases(kind="very long"), run_c19, 18, 100, portion=3)],
                    "histories of steps, assignments and re-initialisations, with one or two samplers on the same parameters; "
                    "non-trivial: two steps and parameters changed from outside in between", []),
    "C20": lambda: ([Part("batches", c20_cases(), run_c20, 160, 3000), Part("long", c20_cases(kind="long"), run_c20, 20, 200),
                     Part("large", c20_cases(kind="large"), run_c20, 12, 200), Part("very long", c20_cases(kind="very long"), run_c20, 6, 60, portion=1)],
                    "sampler x batches x extra feeds; non-trivial: at least two steps compared with the model", [NOISE]),
    "C21": lambda: ([Part("valid", c21_cases(), run_c21, 120, 2000), Part("invalid", invalid_cases(), run_invalid, 100, 1000)],
                    "method x subset of keyword arguments; non-trivial: a chain of two steps compared, or a rejected call", [NOISE]),
}
