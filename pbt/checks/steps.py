"""C11-C13: single steps of the samplers against reference models."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Part
from pbt.drive import DEFAULTS, RTOL, Follower, construct
from pbt.obs import METHODS, UNITS, Cost, Schedule, World, any_stepsizes, cost_specs, large_param_specs, param_specs, stepsizes
from pbt.shims import tf
from pbt.util import seeds32

maybe_seed = st.one_of(st.none(), seeds32)


def some_of(draw, full):
    """Keep each hyperparameter with some probability; the rest takes its documented default."""
    return {k: v for k, v in full.items() if draw(st.integers(0, 4)) > 0}


@st.composite
def hyper_sghmc(draw, max_burn_in=8):
    return some_of(draw, {
        "burn_in_steps": draw(st.integers(0, max_burn_in)), "mdecay": draw(st.sampled_from([0.05, 0.0, 1.0, 0.5, 0.01, 0.3])),
        "scale_grad": draw(st.sampled_from([1.0, 1, 10, 100.0, 0.5, 7, 1e4, 1e30]))})


@st.composite
def hyper_sgld(draw, max_burn_in=8):
    return some_of(draw, {
        "burn_in_steps": draw(st.integers(0, max_burn_in)), "A": draw(st.sampled_from([1.0, 0.1, 2.0, 0.5, 5.0, 40.0])),
        "scale_grad": draw(st.sampled_from([1.0, 1, 10, 100.0, 0.5, 7, 1e4, 1e30]))})


@st.composite
def hyper_relativistic(draw):
    return some_of(draw, {
        "mass": draw(st.sampled_from([1.0, 0.5, 2.0, 1.5])), "speed_of_light": draw(st.sampled_from([1.0, 0.5, 2.0, 3.0])),
        "D": draw(st.sampled_from([1.0, 0.0, 0.1, 2.0])), "Bhat": draw(st.sampled_from([0.0, 0.5, 1.0]))})


HYPER = {"SGHMC": hyper_sghmc, "SGLD": hyper_sgld, "RelativisticSGHMC": hyper_relativistic}
STEPSIZE = {"SGHMC": (1e-3, 0.6), "SGLD": (1e-3, 0.3), "RelativisticSGHMC": (1e-3, 0.5), "SVGD": (1e-3, 0.3)}
LONG_STEPSIZE = {"SGHMC": (1e-3, 0.15), "SGLD": (1e-3, 0.1), "RelativisticSGHMC": (1e-3, 0.1), "SVGD": (1e-3, 0.05)}
LONG = (60, 260)        # steps of long chains
LONG_BURN_IN = 130
VERY_LONG = (1000, 3500)


def burn_in_limit(kind, steps, short=8):
    return steps + 10 if kind == "very long" else LONG_BURN_IN if kind == "long" else short


@st.composite
def chain_cases(draw, methods=METHODS, max_steps=12, kind="short"):
    method = draw(st.sampled_from(methods))
    case = {"method": method}
    case.update(draw(large_param_specs() if kind == "large" else param_specs()))
    if kind == "very long":
        case["dtype"] = "float64"
    case["cost"] = draw(cost_specs(units=UNITS if kind == "short" else (1,)))
    case["steps"] = draw(st.integers(*VERY_LONG) if kind == "very long" else st.integers(*LONG) if kind == "long" else st.integers(2, max_steps))
    case["eps"] = draw(any_stepsizes(*STEPSIZE[method], case["steps"]) if kind == "short" else
                       stepsizes(*(STEPSIZE if kind == "large" else LONG_STEPSIZE)[method], case["steps"]))
    case["initial_eps"] = draw(st.one_of(st.none(), st.sampled_from([0.01, 0.7, 1e-5])))
    case["hyper"] = draw(HYPER[method]() if method == "RelativisticSGHMC" else HYPER[method](max_burn_in=burn_in_limit(kind, case["steps"])))
    if method == "RelativisticSGHMC":
        if 2 * case["hyper"].get("D", 1.0) < max(case["eps"]) * case["hyper"].get("Bhat", 0.0):
            case["hyper"]["Bhat"] = 0.0
        if draw(st.integers(0, 3)) > 0:     # steps from zero make small displacements precise
            case["start"] = [0.0] * len(case["start"])
    case["seed"] = draw(maybe_seed)
    case["moves"] = draw(moves(case["steps"]))
    return case


def moves(steps):
    """Parameters moved by somebody else before a step: [step, parameter, distance]"""
    return st.lists(st.tuples(st.integers(1, max(1, steps - 1)), st.integers(0, 8), st.sampled_from([-1.5, -0.25, 0.5, 1.0, 2.0])).map(list), max_size=3)


def follow_case(case, follower):
    """Makes all steps of a case that can be followed; returns how many."""
    for t in range(case["steps"]):
        for when, index, by in case.get("moves", ()):
            if when == t:
                follower.move(index, by)
        if not follower.step(case["eps"][min(t, len(case["eps"]) - 1)]):
            return t
    return case["steps"]


def burn_in_of(case):
    return dict(DEFAULTS, **case["hyper"])["burn_in_steps"]


def label_chain(case, ctx, follower):
    if case["moves"]:
        ctx.label("moved from outside")
    ctx.label(case["method"], case["dtype"], "%d parameter(s)" % min(len(case["shapes"]), 3),
              "seeded" if case["seed"] is not None else "unseeded")
    if case["method"] in ("SGHMC", "SGLD"):
        b = burn_in_of(case)
        ctx.label("no burn-in" if b == 0 else "across burn-in" if b < case["steps"] else "within burn-in")
    for flag in ("weak", "unmapped", "diverged"):
        if getattr(follower, flag):
            ctx.label(flag)


def run_chain(case, ctx):
    """C11, C12: every step equals the one of the reference model with the same noise."""
    with World() as world:
        params = world.make_params(case)
        cost = Cost(case["cost"], len(case["start"]), case["dtype"])
        schedule = Schedule(case["eps"], case["initial_eps"])
        sampler = construct(case["method"], params, cost.tensor, world.session, case, schedule)
        world.initialize()
        follower = Follower(world, params, case["method"], sampler, case, cost)
        done = follow_case(case, follower)
    label_chain(case, ctx, follower)
    ctx.nontrivial(done >= 2 and not follower.unmapped)


# C13 ------------------------------------------------------------------------------------------------------------------

def initial_momenta(case):
    """Momenta with which a sampler of this seed, mass and speed starts: seen in the first step of a chain that
    diffuses neither nor feels a force."""
    quiet = dict(case, start=[0.0] * len(case["start"]), dtype="float64",
                 hyper={k: v for k, v in case["hyper"].items() if k in ("mass", "speed_of_light")})
    quiet["hyper"].update(D=0.0, Bhat=0.0)
    with World() as world:
        params = world.make_params(quiet)
        sampler = construct("RelativisticSGHMC", params, lambda ps: 0.0 * tf.add_n([tf.reduce_sum(p) for p in ps]),
                            world.session, quiet, Schedule([1.0]))
        world.initialize()
        follower = Follower(world, params, "RelativisticSGHMC", sampler, quiet, Cost(dict(a=[0.0], q=[0.0], s=0.0, w=0.0, d=0.0), len(case["start"]), "float64"))
        follower.step(1.0)
        return follower.model.p, follower.model.error


def run_c13(case, ctx):
    with World() as world:
        params = world.make_params(case)
        cost = Cost(case["cost"], len(case["start"]), case["dtype"])
        sampler = construct("RelativisticSGHMC", params, cost.tensor, world.session, case, Schedule(case["eps"], case["initial_eps"]))
        world.initialize()
        follower = Follower(world, params, "RelativisticSGHMC", sampler, case, cost)
        if case["seed"] is not None:
            p, error = initial_momenta(case)
            follower.model.p, follower.model.error = p, error + RTOL[case["dtype"]] * 1e-3 * np.abs(p)
        done = follow_case(case, follower)
    label_chain(case, ctx, follower)
    ctx.label("initial momentum known" if case["seed"] is not None else "initial momentum inferred")
    ctx.nontrivial(done >= 2 and not follower.unmapped and not follower.weak)


def more(methods, run):
    return [Part("large", chain_cases(methods=methods, max_steps=5, kind="large"), run, 48, 400),
            Part("long", chain_cases(methods=methods, kind="long"), run, 24, 300),
            Part("very long", chain_cases(methods=methods, kind="very long"), run, 6, 60, portion=1)]


CHECKS = {
    "C11": lambda: ([Part("chain", chain_cases(methods=("SGHMC",)), run_chain, 150, 3000)] + more(("SGHMC",), run_chain),
                    "parameters x cost x stepsizes x hyperparameters x burn-in; non-trivial: at least two steps compared with the model",
                    ["noise is observed by fetching the random ops of a step together with it"]),
    "C12": lambda: ([Part("chain", chain_cases(methods=("SGLD",)), run_chain, 150, 3000)] + more(("SGLD",), run_chain),
                    "as C11", ["noise is observed by fetching the random ops of a step together with it"]),
    "C13": lambda: ([Part("chain", chain_cases(methods=("RelativisticSGHMC",)), run_c13, 120, 3000)] + more(("RelativisticSGHMC",), run_c13),
                    "as C11; non-trivial: at least two steps, momenta known to 5%",
                    ["unseeded chains: the initial momentum is inferred from the first displacement"]),
}
