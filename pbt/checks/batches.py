"""C01-C04: minibatch generators."""
import random
from itertools import islice

import numpy as np
from hypothesis import strategies as st

from pbt.child import in_process
from pbt.core import Part, require, sut
from pbt.shims import tf
from pbt.util import mod, other_seeds, same, seeds32

with tf.Graph().as_default():
    X_PH = tf.placeholder(tf.float64, name="x")
    Y_PH = tf.placeholder(tf.float64, name="y")

DTYPES = ["float64", "float32", "int64", "int32"]
SPECIAL = [float("nan"), float("inf"), -0.0, 5e-324, 1e308, -1e-300]


def dataset(case):
    """Distinct rows; the label identifies the row. Returns x, y and the arrays that own their memory."""
    n, d, dtype, layout = case["n"], case["d"], np.dtype(case["dtype"]), case["layout"]
    ytype = np.dtype(case.get("ydtype", dtype))
    order = np.arange(n)
    if case.get("scramble"):
        order = (order * 7919 + 13) % max(n, 1) if np.gcd(7919, n) == 1 else order[::-1]
    x = (order[:, None] * 10 + np.arange(d)[None, :] + 3).astype(dtype)
    if case.get("special") and d > 1 and dtype.kind == "f":      # the first column still tells the rows apart
        with np.errstate(over="ignore"):
            x[:, 1:] = np.resize(np.asarray(SPECIAL).astype(dtype), (n, d - 1))
    y = order * 3 - 5
    if layout == "table":
        y = y.astype(dtype)
    else:                         # labels have a type of their own
        y = (y + 0.25 if ytype.kind == "f" else y).astype(ytype)
    if case["ydim"] == 2:
        y = y[:, None]
    if layout == "fortran":
        x = np.asfortranarray(x)
        owners = [x, y]
    elif layout == "strided":
        bx = np.full((2 * n + 1, d), -77, dtype=dtype)
        by = np.full((2 * n + 1,) + y.shape[1:], -77, dtype=y.dtype)
        bx[1::2], by[1::2] = x, y
        x, y, owners = bx[1::2], by[1::2], [bx, by]
    elif layout == "table":       # data and labels are columns of one table
        table = np.concatenate([x, y.reshape(n, 1)], axis=1)
        x, owners = table[:, :-1], [table]
        y = table[:, -1] if case["ydim"] == 1 else table[:, -1:]
    elif layout == "reversed":
        x, y = x[::-1].copy()[::-1], y[::-1].copy()[::-1]
        owners = [x, y]
    else:
        owners = [x, y]
    if layout == "readonly":
        x.flags.writeable = y.flags.writeable = False
    return x, y, owners


def make(case, x, y, seed="case", size=None):
    m = mod("pysgmcmc.data_batches")
    fun = m.generate_shuffled_batches if case["shuffled"] else m.generate_batches
    kwargs = {}
    seed = case["seed"] if seed == "case" else seed
    if seed is not None or case.get("explicit_none"):
        kwargs["seed"] = seed
    with sut("creating the generator"):
        return fun(x, y, X_PH, Y_PH, batch_size=case["b"] if size is None else size, **kwargs)


def draw(gen):
    with sut("drawing a batch"):
        return next(gen)


@st.composite
def cases(draw_, max_n=40, max_draws=25, seed=st.one_of(st.none(), seeds32)):
    n = draw_(st.one_of(st.integers(1, 6), st.integers(1, max_n)))
    b = draw_(st.one_of(st.integers(1, n + 3), st.sampled_from([1, n, n + 1, 2 * n + 5]), st.integers(max(1, n - 2), n)))
    return {
        "n": n, "b": b, "d": draw_(st.one_of(st.integers(1, 4), st.sampled_from([1, 2, 9, 40]))),
        "special": draw_(st.booleans()), "dtype": draw_(st.sampled_from(DTYPES)),
        "ydtype": draw_(st.sampled_from(DTYPES)),
        "layout": draw_(st.sampled_from(["plain", "plain", "fortran", "strided", "table", "reversed", "readonly"])),
        "ydim": draw_(st.sampled_from([1, 1, 2])), "scramble": draw_(st.booleans()),
        "shuffled": draw_(st.booleans()), "seed": draw_(seed), "explicit_none": draw_(st.booleans()),
        "draws": draw_(st.integers(1, max_draws)),
    }


def decode(batch, x, y, where):
    """Row indices of a batch, after checking that it consists of rows with their labels."""
    require(isinstance(batch, dict) and set(batch) == {X_PH, Y_PH}, "%s: does not feed exactly the two placeholders", where)
    bx, by = batch[X_PH], batch[Y_PH]
    require(isinstance(bx, np.ndarray) and isinstance(by, np.ndarray), "%s: no arrays", where)
    require(bx.dtype == x.dtype and by.dtype == y.dtype, "%s: element types %s, %s", where, bx.dtype, by.dtype)
    k = bx.shape[0] if bx.ndim else -1
    require(bx.shape[1:] == x.shape[1:], "%s: data has shape %s", where, bx.shape)
    require(by.shape == (k, 1), "%s: labels have shape %s for %s data points", where, by.shape, k)
    lookup = {float(v): i for i, v in enumerate(np.asarray(y).reshape(-1))}
    ids = []
    for row, label in zip(bx, by[:, 0]):
        require(float(label) in lookup, "%s: label %r is not in the dataset", where, label)
        i = lookup[float(label)]
        require(same(row, x[i]), "%s: data %r with label of row %d = %r", where, row.tolist(), i, x[i].tolist())
        ids.append(i)
    return ids


def run_c01(case, ctx):
    x, y, _ = dataset(case)
    refx, refy = x.copy(), y.copy()
    gen = make(case, x, y)
    size = min(case["n"], case["b"])
    for t in range(case["draws"]):
        ids = decode(draw(gen), refx, refy, "batch %d" % t)
        require(len(ids) == size, "batch %d has %d points, not %d", t, len(ids), size)
        require(len(set(ids)) == size, "batch %d repeats points: %s", t, ids)
        if case["b"] >= case["n"] and not case["shuffled"]:
            require(ids == list(range(case["n"])), "full batch %d is out of order: %s", t, ids)
    ctx.label("shuffled" if case["shuffled"] else "plain", "full" if case["b"] >= case["n"] else "partial",
              "layout " + case["layout"], "seeded" if case["seed"] is not None else "unseeded")
    ctx.nontrivial(case["n"] > 1 and case["draws"] > 1)


def run_c02(case, ctx):
    x, y, owners = dataset(case)
    before = [o.copy() for o in owners]
    gen = make(case, x, y)
    batches = []
    for t in range(case["draws"]):
        batch = draw(gen)
        for s, (old, saved) in enumerate(batches):
            for key in saved:
                require(same(old[key], saved[key]), "batch %d was altered by drawing batch %d", s, t)
        for o, b in zip(owners, before):
            require(same(o, b), "the dataset was altered by drawing batch %d", t)
        batches.append((batch, {k: np.array(v, copy=True) for k, v in batch.items()}))
    ctx.label("shuffled" if case["shuffled"] else "plain", "layout " + case["layout"])
    ctx.nontrivial(case["draws"] > 1 and min(case["n"], case["b"]) > 1)


def global_state():
    kind, keys, pos, has_gauss, cached = np.random.get_state()
    return kind, keys.tobytes(), pos, has_gauss, cached, random.getstate()


@st.composite
def c03_cases(draw_, max_ops=30):
    case = draw_(cases(max_draws=1, seed=seeds32))
    case["explicit_none"] = False
    case["ops"] = draw_(st.lists(st.sampled_from(["A", "B", "C", "U", "S", "R", "P"]), min_size=2, max_size=30))
    if max_ops > 30:
        case["ops"] = (case["ops"] * max_ops)[:draw_(st.integers(100, max_ops))]
    case["other_seed"] = draw_(seeds32)
    case["other_b"] = draw_(st.integers(1, case["n"] + 3))
    return case


def run_c03(case, ctx):
    """A and B have the same seed; C another seed, batch size and data; U is unseeded; S, R, P use the global state."""
    x, y, _ = dataset(case)
    total = len(case["ops"])
    reference = make(case, x, y)
    expected = []
    for _ in range(total):
        b = draw(reference)
        expected.append({k: np.array(v, copy=True) for k, v in b.items()})
    x2 = x[::-1].copy() + x.dtype.type(1)
    np.random.seed(7)
    random.seed(7)
    gens = {"A": make(case, x, y), "B": make(case, x, y),
            "C": make(case, x2, y, seed=case["other_seed"], size=case["other_b"]),
            "U": make(dict(case, explicit_none=True), x, y, seed=None)}
    count = {"A": 0, "B": 0}
    for i, op in enumerate(case["ops"]):
        if op == "S":
            np.random.seed(i * 31 % 1000)
        elif op == "R":
            np.random.rand(3)
            np.random.randn()
        elif op == "P":
            random.random()
        elif op == "U":
            draw(gens["U"])
        else:
            before = global_state()
            batch = draw(gens[op])
            require(global_state() == before, "drawing from a seeded generator changed the global random state")
            if op in count:
                want = expected[count[op]]
                for key in want:
                    require(key in batch and same(batch[key], want[key]),
                            "draw %d of a generator with the same seed differs", count[op])
                count[op] += 1
    ctx.label("shuffled" if case["shuffled"] else "plain")
    ctx.nontrivial(count["A"] + count["B"] >= 3 and case["n"] > case["b"])


@st.composite
def process_cases(draw_):
    case = draw_(cases(seed=seeds32))
    case["hash_seeds"] = draw_(st.lists(st.integers(0, 1000), min_size=2, max_size=2, unique=True))
    return case


def stream_in_process(case):
    x, y, _ = dataset(case)
    gen = make(case, x, y)
    return [[int(i) for i in decode(draw(gen), x, y, "batch %d" % t)] for t in range(case["draws"])]


def run_processes(case, ctx):
    a, b = [in_process("batches", "stream_in_process", case, h) for h in case["hash_seeds"]]
    require(a == b, "the streams of seed %d in two processes consist of rows %s and %s", case["seed"], a, b)
    ctx.nontrivial(len(a) >= 3 and case["n"] > case["b"])


@st.composite
def c03_differ_cases(draw_):
    n = draw_(st.integers(20, 60))
    s1 = draw_(seeds32)
    s2 = draw_(other_seeds(s1))
    shuffled = draw_(st.booleans())
    b = draw_(st.one_of(st.integers(1, 10), st.sampled_from([n, n + 1]))) if shuffled else draw_(st.integers(1, 10))
    return {"n": n, "b": b, "d": 1, "dtype": "float64", "layout": "plain", "ydim": 1, "shuffled": shuffled, "seed": s1, "seed2": s2, "draws": 40}


def run_c03_differ(case, ctx):
    """At least 11 windows, or orders of 20 points, and 40 draws: equal streams of independent seeds have probability < 11**-40."""
    x, y, _ = dataset(case)
    g1, g2 = make(case, x, y), make(case, x, y, seed=case["seed2"])
    equal = True
    for _ in range(case["draws"]):
        a, b = draw(g1), draw(g2)
        equal = equal and all(same(a[k], b[k]) for k in a)
    require(not equal, "seeds %d and %d give the same stream", case["seed"], case["seed2"])
    ctx.nontrivial()


@st.composite
def c04_cases(draw_, large=False):
    b = draw_(st.integers(1, 12))
    n = b + draw_(st.one_of(st.integers(0, 3), st.integers(0, max(1, 150 // b - 1))))
    if large:
        b = draw_(st.sampled_from([1, 2, 20, 300]))
        n = b + draw_(st.integers(0, 3000 if b < 3 else 300))
    b = b + (draw_(st.integers(0, 5)) if n == b else 0)
    return {"n": n, "b": b, "d": 1, "dtype": "float64", "layout": "plain", "ydim": 1,
            "shuffled": not large and draw_(st.booleans()), "seed": draw_(st.one_of(st.none(), seeds32)), "draws": 0}


def run_c04(case, ctx):
    """Each window has probability 1/windows, each front at least 1/(windows*size): after 40 times that many draws
    a miss has probability below exp(-40)."""
    x, y, _ = dataset(case)
    gen = make(case, x, y)
    size = min(case["n"], case["b"])
    windows = case["n"] - size + 1
    draws = 40 * windows * (size if case["shuffled"] else 1)
    visited, starts, fronts, history, orders = set(), set(), set(), [], {}
    lookup = {float(v): i for i, v in enumerate(y)}
    for _ in range(draws):
        ids = [lookup.get(float(v)) for v in draw(gen)[Y_PH][:, 0]]
        visited.update(ids)
        fronts.add(ids[0])
        history.append(min((i for i in ids if i is not None), default=None))
        orders.setdefault(history[-1], set()).add(tuple(ids))
        starts.add(history[-1])
    missing = set(range(case["n"])) - visited
    require(not missing, "points %s were never drawn in %d batches", sorted(missing)[:10], draws)
    if windows > 1:
        require(len(starts) > 1, "all %d batches start at the same place", draws)
        for p in range(1, min(draws // 2, 4000) + 1):
            require(any(a != b for a, b in zip(history, islice(history, p, None))), "the starting points repeat with period %d: %s", p, history[:2 * p][:20])
    if case["shuffled"]:
        missing = set(range(case["n"])) - fronts
        require(not missing, "points %s were never at the front of a shuffled batch in %d draws", sorted(missing)[:10], draws)
        for start in starts:
            require(size == 1 or history.count(start) < 40 or len(orders[start]) > 1,
                    "the points from %s on came in the same order in all of %d batches", start, history.count(start))
    ctx.label("shuffled" if case["shuffled"] else "plain", "windows=%s" % min(windows, 3), "size=%s" % min(size, 3))
    ctx.nontrivial(windows > 1 or (case["shuffled"] and size > 1))


@st.composite
def huge_cases(draw_):
    b = draw_(st.sampled_from([1, 2, 7, 20, 64]))
    windows = draw_(st.one_of(st.integers(1000, 20000), st.integers(10000, 80000), st.integers(60000, 400000)))
    return {"windows": windows, "b": b, "shuffled": draw_(st.booleans()), "seed": draw_(st.one_of(st.none(), seeds32)), "draws": draw_(st.sampled_from([6000, 20000]))}


def run_huge(case, ctx):
    """Starting points in every region of a big dataset and of every parity; both ends where that takes few enough draws."""
    windows, b = case["windows"], case["b"]
    n = windows + b - 1
    ends = windows * 40 <= 200000
    count = 40 * windows if ends else case["draws"]
    y = np.arange(n)
    gen = make(case, y.reshape(-1, 1), y)
    starts = np.empty(count, int)
    with sut("drawing batches"):
        for t in range(count):
            starts[t] = next(gen)[Y_PH].min()
    regions = np.unique(starts * 64 // windows)
    require(len(regions) == 64, "of the %d starting points in a dataset of %d, none lies in 64ths %s", count, n, sorted(set(range(64)) - set(regions.tolist())))
    for k in (2, 3, 4, 5, 7, 8, 10, 16):
        rests = np.unique(starts % k)
        require(len(rests) == k, "all starting points of %d batches are %s modulo %d", count, rests, k)
    if ends:
        missing = np.setdiff1d(np.arange(windows), starts)
        require(len(missing) == 0, "%d starting points, such as %s, never occurred in %d batches of a dataset of %d", len(missing), missing[:5], count, n)
    for p in (1, 2, 3, 4, 100, 256, 1000, 1024):
        require(np.any(starts[p:] != starts[:-p]), "the starting points repeat with period %d", p)
    ctx.label("shuffled" if case["shuffled"] else "plain", "all starting points" if ends else "regions")
    ctx.nontrivial()


@st.composite
def order_cases(draw_):
    b = draw_(st.one_of(st.integers(2, 40), st.integers(30, 600), st.integers(200, 6000)))
    return {"b": b, "more": draw_(st.one_of(st.just(0), st.integers(0, 50))), "seed": draw_(st.one_of(st.none(), seeds32)), "draws": 250}


def run_order(case, ctx):
    """Orders in big shuffled batches: where the points come, and how far neighbours are apart, is as for random orders."""
    b, draws = case["b"], case["draws"]
    y = np.arange(b + case["more"])
    generator = mod("pysgmcmc.data_batches").generate_shuffled_batches
    with sut("drawing shuffled batches"):
        gen = generator(y.reshape(-1, 1), y, X_PH, Y_PH, batch_size=b, **({} if case["seed"] is None else {"seed": case["seed"]}))
        orders = []
        for _ in range(draws):
            ids = np.array(next(gen)[Y_PH]).reshape(-1)
            orders.append(ids - ids.min())
    orders = np.array(orders)
    require(np.array_equal(np.sort(orders, axis=1), np.tile(np.arange(b), (draws, 1))), "batches of %d are no windows of the dataset", b)
    picks = sorted({0, 1, b // 3, b // 2, b - 2, b - 1})
    for k in picks:
        for what, values in (("position %d of a batch shows" % k, orders[:, k]), ("point %d of a window comes at" % k, np.argmax(orders == k, axis=1))):
            if b > 2 or k == 0:
                require(len(np.unique(values)) > 1, "%s %d in all of %d batches of %d", what, values[0], draws, b)
            # mean of uniform draws: ten standard errors
            off = abs(values.mean() - (b - 1) / 2) / np.sqrt((b * b - 1) / 12 / draws)
            require(off < 10, "%s %.1f in the mean of %d batches of %d (%.1f standard errors off)", what, values.mean(), draws, b, off)
    if b >= 12:
        require(len({tuple(o) for o in orders}) > draws // 2, "only %d different orders in %d batches of %d", len({tuple(o) for o in orders}), draws, b)
        fixed = np.mean(orders[1:] == orders[:-1]) * b       # one in the mean
        require(fixed < 1 + 10 / np.sqrt(draws), "%.1f points stay in place from one batch of %d to the next", fixed, b)
    ctx.label("b<=40" if b <= 40 else "b<=600" if b <= 600 else "larger")
    ctx.nontrivial()


CHECKS = {
    "C01": lambda: ([Part("stream", cases(max_n=60), run_c01, 1500),
                     Part("large", cases(max_n=3000, max_draws=5), run_c01, 60),
                     Part("huge", cases(max_n=150000, max_draws=3), run_c01, 24),
                     Part("long", cases(max_n=12, max_draws=1200), run_c01, 60)],
                    "dataset x layout x batch size x seed x generator; non-trivial: more than one point and more than one draw", []),
    "C02": lambda: ([Part("stream", cases(), run_c02, 1500), Part("long", cases(max_n=12, max_draws=300), run_c02, 100)],
                    "as C01, also read-only/strided/shared arrays; non-trivial: several draws of several points", []),
    "C03": lambda: ([Part("interleave", c03_cases(), run_c03, 800), Part("long", c03_cases(max_ops=2500), run_c03, 40), Part("differ", c03_differ_cases(), run_c03_differ, 300),
                     Part("processes", process_cases(), run_processes, 12, 100, portion=2)],
                    "interleavings of four generators and global random state use; non-trivial: at least 3 draws of partial batches", []),
    "C04": lambda: ([Part("coverage", c04_cases(), run_c04, 150), Part("large", c04_cases(large=True), run_c04, 24),
                     Part("huge", huge_cases(), run_huge, 18, 400), Part("orders", order_cases(), run_order, 60, 1000)],
                    "dataset sizes, batch sizes and seeds; non-trivial: more than one window or ordering",
                    ["misses have probability below exp(-40) each for independent uniform draws"]),
}
