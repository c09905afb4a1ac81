"""C14: SVGD against its reference model, and its symmetry in the particles."""
import numpy as np
from hypothesis import strategies as st

from pbt.checks.steps import follow_case, moves
from pbt.core import Part, Skip, require, sut
from pbt.drive import SvgdFollower, closest, construct
from pbt.obs import UNITS, Cost, Schedule, World, any_stepsizes, cost_specs, stepsizes
from pbt.shims import tf
from pbt.util import floats


@st.composite
def hyper_svgd(draw):
    full = {"alpha": draw(st.sampled_from([0.9, 0.0, 0, 0.5, 0.99, 0.25])),
            "fudge_factor": draw(st.sampled_from([1e-6, 1e-8, 1e-3, 1, 0.1]))}
    return {k: v for k, v in full.items() if draw(st.integers(0, 3)) > 0}


@st.composite
def particle_specs(draw, max_n=7, max_d=4, closest_distance=0.05):
    n, d = draw(st.integers(2, max_n)), draw(st.integers(1, max_d))
    width = draw(st.sampled_from([2.0, 2.0, 0.5, 10.0, 3000.0]))
    rows = draw(st.lists(st.lists(floats(-width, width), min_size=d, max_size=d), min_size=n, max_size=n)
                .filter(lambda rows: closest(np.array(rows)) >= closest_distance))
    return {"shapes": [[d]] * n, "start": [v for row in rows for v in row],
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"]))}


@st.composite
def large_particle_specs(draw):
    """More particles of more dimensions, spread around the points of a lattice."""
    n = draw(st.one_of(st.integers(6, 14), st.integers(6, 14), st.integers(15, 30)))
    d = draw(st.sampled_from([1, 2, 5, 8, 13, 21, 40, 100]))
    jitter = draw(st.lists(floats(-0.3, 0.3), min_size=1, max_size=7))
    rows = [[(i * (3 if k == 0 else 7 * k) % (n if k == 0 else 5)) * 1.0 + jitter[(i * d + k) % len(jitter)] for k in range(d)] for i in range(n)]
    rows = [[v - 2.0 for v in row] for row in rows]
    if closest(np.array(rows)) < 0.05:
        rows = [[v + (0.5 * i if k == 0 else 0) for k, v in enumerate(row)] for i, row in enumerate(rows)]
    return {"shapes": [[d]] * n, "start": [v for row in rows for v in row],
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"]))}


@st.composite
def tight_cases(draw):
    """Particles that are close to each other compared to usual parameters, and steps of that size."""
    case = draw(cases())
    unit = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-6, 1e-8]))
    case.update(dtype="float64", moves=[], start=[unit * v for v in case["start"]], eps=[min(e, 0.3) * unit for e in case["eps"]], initial_eps=None, nearest=unit * 1e-3)
    case["cost"]["unit"] = draw(st.sampled_from([1, 1 / unit]))
    return case


@st.composite
def cases(draw, max_steps=8, kind="short"):
    case = {"method": "SVGD"}
    case.update(draw(large_particle_specs() if kind == "large" else particle_specs()))
    case["cost"] = draw(cost_specs(units=UNITS if kind == "short" else (1,)))
    case["steps"] = draw(st.integers(1000, 2500) if kind == "very long" else st.integers(40, 150) if kind == "long" else st.integers(2, max_steps))
    case["eps"] = draw((any_stepsizes if kind == "short" else stepsizes)(1e-3, 0.05 if "long" in kind else 0.3, case["steps"]))
    case["initial_eps"] = draw(st.one_of(st.none(), st.sampled_from([0.01, 0.7])))
    case["hyper"] = draw(hyper_svgd())
    case["seed"] = draw(st.one_of(st.none(), st.integers(0, 5)))
    case["nameless"] = draw(st.booleans())
    case["moves"] = draw(moves(case["steps"]))
    return case


class Nameless(object):
    """A cost callable without a name."""

    def __init__(self, fun):
        self.fun = fun

    def __call__(self, particle):
        return self.fun(particle)


def cost_of(case):
    return Cost(case["cost"], case["shapes"][0][0], case["dtype"])


def one_particle(cost, case):
    fun = lambda particle: cost.tensor([particle])
    return Nameless(fun) if case.get("nameless") else fun


def run_chain(case, ctx):
    with World() as world:
        params = world.make_params(case)
        cost = cost_of(case)
        sampler = construct("SVGD", params, one_particle(cost, case), world.session, case, Schedule(case["eps"], case["initial_eps"]))
        world.initialize()
        follower = SvgdFollower(world, params, sampler, case, cost)
        done = follow_case(case, follower)
    if case["moves"]:
        ctx.label("moved from outside")
    ctx.label("n=%d" % len(params), "d=%d" % case["shapes"][0][0], case["dtype"])
    for flag in ("weak", "diverged"):
        if getattr(follower, flag):
            ctx.label(flag)
    ctx.nontrivial(done >= 2 and not follower.weak)


@st.composite
def permuted_cases(draw):
    case = draw(cases(max_steps=4, kind="usual"))
    case["dtype"] = "float64"
    case["permutation"] = draw(st.permutations(range(len(case["shapes"]))))
    return case


def trajectory(case):
    with World() as world:
        params = world.make_params(case)
        sampler = construct("SVGD", params, one_particle(cost_of(case), case), world.session, case, Schedule(case["eps"], case["initial_eps"]))
        world.initialize()
        steps = []
        for _ in range(case["steps"]):
            with sut("sampler step"):
                sample, cost = next(sampler)
            steps.append((np.array(sample), np.asarray(cost).reshape(len(params))))
    return steps


def run_permuted(case, ctx):
    order, d = list(case["permutation"]), case["shapes"][0][0]
    rows = np.array(case["start"]).reshape(-1, d)
    a = trajectory(case)
    b = trajectory(dict(case, start=[float(v) for v in rows[order].reshape(-1)]))
    for t, ((x, u), (y, v)) in enumerate(zip(a, b)):
        if not np.all(np.isfinite(x)) or np.max(np.abs(x)) > 1e4 or closest(x) < 1e-2:
            if t == 0:
                raise Skip()
            break
        # a sign flip of a vanishing direction may move a particle by up to a full step
        size = np.max(np.abs(x - rows)) if t == 0 else np.max(np.abs(x - a[t - 1][0]))
        require(np.all(np.abs(x[order] - y) <= 1e-6 * (1 + size)) or small_direction(case, a, t),
                "step %d: permuting the particles by %s gives %s instead of %s", t + 1, order, y.tolist(), x[order].tolist())
        require(np.allclose(u[order], v, rtol=1e-6, atol=1e-6) or t > 0, "step %d: costs %s, permuted %s", t + 1, u, v)
    ctx.nontrivial(order != sorted(order))


def small_direction(case, steps, t):
    """Whether the direction of some particle is zero up to rounding in one of the first steps (its normalisation is ill-defined)."""
    d = case["shapes"][0][0]
    x = np.array(case["start"]).reshape(-1, d)
    cost = cost_of(case)
    from pbt.models import SVGD
    model = SVGD(len(x), d, 0.9, 1e-6)
    for k in range(t + 1):
        g = np.array([cost.grad(row) for row in x])
        phi, error = model.direction(x, g, np.abs(g) + 1, 1e-9)
        if np.any(np.abs(phi) < 1e-3 + 10 * error):
            return True
        x = steps[k][0]
    return False


CHECKS = {
    "C14": lambda: ([Part("tight", tight_cases(), run_chain, 50, 600), Part("chain", cases(), run_chain, 150, 3000), Part("large", cases(max_steps=4, kind="large"), run_chain, 40, 300),
                     Part("long", cases(kind="long"), run_chain, 20, 200),
                     Part("very long", cases(kind="very long"), run_chain, 6, 60, portion=1), Part("permutation", permuted_cases(), run_permuted, 40, 600)],
                    "particles x cost x stepsizes x hyperparameters; non-trivial: two or more steps compared with the model to a tenth "
                    "of the displacement / a permutation other than the identity",
                    ["one SVGD sampler per graph; at least two particles, all of them distinct"]),
}
