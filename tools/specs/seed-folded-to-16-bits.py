ID = 'seed-folded-to-16-bits'
PROPERTY = 'C03'
NEEDS = 'seeds of 65536 and above'
BREAKS = 'seeds that differ by a multiple of 65536 give the same stream of minibatches'
ALSO = []
EDITS = [
    ('pysgmcmc/data_batches.py',
     '    rng = np.random.RandomState()\n    rng.seed(seed)\n',
     '    # keep the state small\n    rng = np.random.RandomState(seed % 2 ** 16)\n'),
]
DEMO = r'''
from pysgmcmc.data_batches import generate_batches
x, y = np.arange(200.0).reshape(100, 2), np.arange(100.0)
def stream(seed):
    generator = generate_batches(x, y, "x", "y", batch_size=2, seed=seed)
    return [float(next(generator)["y"][0, 0]) for _ in range(30)]
check(stream(3) == stream(3), "a seed gives two streams")
check(stream(3) != stream(3 + 2 ** 16), "two seeds give one stream")
check(stream(2 ** 20) != stream(2 ** 21), "two seeds give one stream")
'''
