ID = 'last-point-never-visited'
PROPERTY = 'C04'
NEEDS = 'more datapoints than the batch size'
BREAKS = 'the minibatch that ends with the last datapoint is never drawn, so that point is never visited'
ALSO = []
EDITS = [
    ('pysgmcmc/data_batches.py',
     '        start = rng.randint(0, (n_examples - batch_size + 1))\n',
     '        start = rng.randint(0, max(1, n_examples - batch_size))\n'),
]
DEMO = r'''
from itertools import islice
from pysgmcmc.data_batches import generate_batches
x, y = np.arange(12.0).reshape(6, 2), np.arange(6.0)
for seed in (1, 2, 3):
    seen = set()
    for batch in islice(generate_batches(x, y, "x", "y", batch_size=2, seed=seed), 300):
        seen |= set(batch["y"][:, 0])
    check(seen == set(y), "only", sorted(seen), "are ever visited")
'''
