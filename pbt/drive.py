"""Driving a sampler next to its reference model."""
import numpy as np

from pbt.core import HarnessError, require, sut
from pbt.models import SGHMC, SGLD, Relativistic, SVGD
from pbt.obs import (Cost, Schedule, World, check_structure, flatten, pick_noise, sampler_class)
from pbt.shims import tf

RTOL = {"float64": 1e-9, "float32": 2e-3}
ROUND = {"float64": 1e-15, "float32": 1e-6}
DEFAULTS = {"burn_in_steps": 3000, "mdecay": 0.05, "scale_grad": 1.0, "A": 1.0, "mass": 1.0, "speed_of_light": 1.0,
            "D": 1.0, "Bhat": 0.0, "alpha": 0.9, "fudge_factor": 1e-6}


def reference(method, n, hyper, initial_momentum=None):
    h = dict(DEFAULTS, **hyper)
    if method == "SGHMC":
        return SGHMC(n, h["burn_in_steps"], h["mdecay"], float(h["scale_grad"]))
    if method == "SGLD":
        return SGLD(n, h["burn_in_steps"], float(h["A"]), float(h["scale_grad"]))
    if method == "RelativisticSGHMC":
        return Relativistic(h["mass"], h["speed_of_light"], float(h["D"]), float(h["Bhat"]))
    raise HarnessError(method)


def construct(method, params, cost_fun, session, case, schedule=None, **more):
    """Construct the sampler of a case; only what the case mentions is passed."""
    kwargs = dict(case.get("hyper", {}))
    if schedule is not None:
        kwargs["stepsize_schedule"] = schedule
    kwargs["dtype"] = tf.as_dtype(case["dtype"])
    if case.get("seed", None) is not None:
        kwargs["seed"] = case["seed"]
    kwargs.update(more)
    kwargs["particles" if method == "SVGD" else "params"] = params
    cls = sampler_class(method)
    with sut("constructing " + method):
        return cls(cost_fun=cost_fun, session=session, **kwargs)


def check_cost(got, want, magnitude, dtype, vector, where):
    got = np.asarray(got)
    require(got.shape == ((1,) if vector else ()), "%s: the cost has shape %s", where, got.shape)
    require(got.dtype == np.dtype(dtype), "%s: the cost has type %s", where, got.dtype)
    tol = (1e-10 if dtype == "float64" else 1e-4) * (magnitude + 1e-3)
    require(abs(float(got.reshape(-1)[0]) - want) <= tol, "%s: the cost is %r, that of the previous sample is %r",
            where, float(got.reshape(-1)[0]), want)


def compare(x, new, delta, tolerance, dtype, where, **details):
    bound = tolerance + 8 * ROUND[dtype] * np.maximum(np.abs(x), np.abs(new))
    bad = ~(np.abs(new - (x + delta)) <= bound)
    if bad.any():
        k = int(np.argmax(bad))
        require(False, "%s: element %d of the sample is %r, the equations give %r +- %.2g (previous %r; %s)", where, k,
                float(new[k]), float(x[k] + delta[k]), float(bound[k]), float(x[k]),
                ", ".join("%s=%s" % (n, np.asarray(v).reshape(-1)[k] if np.size(v) > 1 else v) for n, v in details.items()))


class Follower(object):
    """Steps a sampler and compares every step with the model."""

    def __init__(self, world, params, method, sampler, case, cost):
        self.world, self.params, self.method, self.sampler, self.case, self.cost = world, params, method, sampler, case, cost
        self.dtype = case["dtype"]
        self.x = flatten(world.session.run(params))
        self.model = reference(method, len(self.x), case.get("hyper", {}))
        self.t = 0
        self.weak = self.unmapped = self.diverged = False

    def move(self, index, by):
        """Somebody else moves one of the parameters."""
        param = self.params[index % len(self.params)]
        value = self.world.session.run(param)
        with sut("loading a value into a parameter"):
            param.load((value + by).astype(value.dtype), self.world.session)
        self.x = flatten(self.world.session.run(self.params))

    def step(self, eps, *args, grad=None, grad_magnitude=None, cost=None, cost_magnitude=None):
        """One step with the stepsize the case prescribes. Returns False when the chain cannot be followed further."""
        where = "step %d" % (self.t + 1)
        sample, cost_value, drawn = self.world.step(self.sampler, *args)
        arrays = check_structure(sample, self.params, where)
        self.t += 1
        new = flatten(arrays)
        x = self.x
        g = self.cost.grad(x) if grad is None else grad
        gm = self.cost.grad_magnitude(x) if grad_magnitude is None else grad_magnitude
        if cost is not False:
            want = self.cost.value(x) if cost is None else cost
            magnitude = self.cost.magnitude(x) if cost_magnitude is None else cost_magnitude
            check_cost(cost_value, want, magnitude, self.dtype, getattr(self.cost, "vector", False), where)
        self.sample, self.arrays, self.cost_value = sample, arrays, cost_value
        z = pick_noise(self.world, self.params, drawn) if drawn else np.zeros(len(x))
        self.z = z
        if not np.all(np.isfinite(g)) or np.max(np.abs(g), initial=0) > 1e8 or np.max(np.abs(x)) > 1e4:
            self.diverged = True
            return False
        if z is None:
            self.unmapped = True
            self.x = new
            return True
        if self.method == "RelativisticSGHMC":
            self.relativistic(eps, g, gm, z, x, new, where)
        else:
            delta, tolerance = self.model.step(g, gm, eps, z, RTOL[self.dtype])
            compare(x, new, delta, tolerance, self.dtype, where, eps=eps, grad=g, z=z)
        self.x = new
        return True

    def relativistic(self, eps, g, gm, z, x, new, where):
        model, rounding = self.model, 8 * ROUND[self.dtype]
        limit = eps * model.c
        require(np.all(np.abs(new - x) <= limit * (1 + 1e-5) + rounding * np.maximum(np.abs(x), np.abs(new))),
                "%s: moved by %s with stepsize * speed of light = %r", where, np.max(np.abs(new - x)), limit)
        if model.p is not None:
            delta, tolerance = model.step(g, gm, eps, z, RTOL[self.dtype])
            compare(x, new, delta, tolerance, self.dtype, where, eps=eps, grad=g, z=z, momentum=model.p)
            if np.median(model.error) > 0.05 * model.mass * model.c:
                self.weak = True
        # momenta as inferred from this displacement, where that is more precise than the model
        v = np.clip((new - x) / eps, -model.c, model.c)
        dv = rounding * np.maximum(np.abs(x), np.abs(new)) / eps + rounding * np.abs(v)
        p = model.momentum_of(np.sign(v) * np.minimum(np.abs(v), model.c * (1 - 1e-12)))
        upper = np.abs(v) + dv
        error = np.where(upper < model.c * (1 - 1e-11), model.momentum_of(np.minimum(upper, model.c * (1 - 1e-12))) - np.abs(p), 1e30)
        error = np.abs(error) + 1e-12 * np.abs(p)
        # the slope grows towards the speed limit: be generous
        error = 2 * error
        if model.p is None:
            model.p, model.error = p, error
        else:
            better = error < model.error
            model.p, model.error = np.where(better, p, model.p), np.where(better, error, model.error)


class SvgdFollower(object):
    """The same for SVGD; `cost` is the cost of one particle."""

    weak = unmapped = diverged = False

    def __init__(self, world, params, sampler, case, cost):
        self.world, self.params, self.sampler, self.cost = world, params, sampler, cost
        self.dtype, self.nearest = case["dtype"], case.get("nearest", 1e-3)
        self.x = self.read()
        h = dict(DEFAULTS, **case.get("hyper", {}))
        self.model = SVGD(len(self.x), self.x.shape[1], h["alpha"], h["fudge_factor"])
        self.t = 0

    def move(self, index, by):
        index %= len(self.params)
        moved = self.x[index] + by
        if np.min(np.sqrt(np.sum((np.delete(self.x, index, axis=0) - moved) ** 2, axis=1))) < 0.05:
            return      # particles have to stay distinct
        param = self.params[index]
        value = self.world.session.run(param)
        with sut("loading a value into a particle"):
            param.load((value + by).astype(value.dtype), self.world.session)
        self.x = self.read()

    def read(self):
        return np.array([np.asarray(v, "float64").reshape(-1) for v in self.world.session.run(self.params)])

    def step(self, eps, *args, grad=None, grad_magnitude=None, cost=None, cost_magnitude=None):
        where = "step %d" % (self.t + 1)
        sample, cost_value, _ = self.world.step(self.sampler, *args)
        self.arrays = check_structure(sample, self.params, where)
        self.sample, self.cost_value = sample, cost_value
        self.t += 1
        x, new = self.x, np.array([np.asarray(a, "float64").reshape(-1) for a in self.arrays])
        g = np.array([self.cost.grad(row) for row in x]) if grad is None else grad
        gm = np.array([self.cost.grad_magnitude(row) for row in x]) if grad_magnitude is None else grad_magnitude
        want = np.array([self.cost.value(row) for row in x]) if cost is None else cost
        magnitude = np.array([self.cost.magnitude(row) for row in x]) if cost_magnitude is None else cost_magnitude
        got = np.asarray(cost_value)
        vector = getattr(self.cost, "vector", False)
        require(got.shape == ((len(x), 1) if vector else (len(x),)), "%s: the costs of %d particles have shape %s", where, len(x), got.shape)
        require(got.dtype == np.dtype(self.dtype), "%s: the costs have type %s", where, got.dtype)
        tol = (1e-10 if self.dtype == "float64" else 1e-4) * (magnitude + 1e-3)
        off = np.abs(got.reshape(-1) - want) > tol
        require(not off.any(), "%s: the costs are %s, those of the previous particles %s", where, got.reshape(-1), want)
        if np.max(np.abs(g)) > 1e8 or np.max(np.abs(x)) > 1e4 or closest(x) < self.nearest:
            self.diverged = True
            return False
        rtol = {"float64": 1e-11, "float32": 1e-5}[self.dtype]
        delta, tolerance = self.model.step(x, g, gm, eps, rtol)
        if np.median(tolerance) > 0.1 * np.median(np.abs(delta)):
            self.weak = True
        compare(x.reshape(-1), new.reshape(-1), delta.reshape(-1), tolerance.reshape(-1), self.dtype, where, eps=eps)
        self.x = new
        return True


def closest(x):
    """Smallest distance of two particles."""
    d = np.sqrt(np.sum((x[:, None] - x[None]) ** 2, axis=2))
    return np.min(d[~np.eye(len(x), dtype=bool)])


def follow(world, params, method, sampler, case, cost):
    if method == "SVGD":
        return SvgdFollower(world, params, sampler, case, cost)
    return Follower(world, params, method, sampler, case, cost)
