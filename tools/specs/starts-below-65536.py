ID = 'starts-below-65536'
PROPERTY = 'C04'
NEEDS = 'a data set with more than 65536 windows'
BREAKS = 'minibatches of data sets of more than 65536 points never contain the later ones'
ALSO = []
EDITS = [
    ('pysgmcmc/data_batches.py',
     '        start = rng.randint(0, (n_examples - batch_size + 1))\n',
     '        start = rng.randint(0, (n_examples - batch_size + 1)) & 0xFFFF\n'),
]
DEMO = r'''
from pysgmcmc.data_batches import generate_batches
from itertools import islice
n = 200000
x = np.arange(float(n))[:, None]
seen = [b["x"].max() for b in islice(generate_batches(x, x[:, 0], "x", "y", batch_size=20, seed=1), 200)]
check(max(seen) > 150000, "of", n, "points, none after", max(seen), "was seen in 200 minibatches")
'''
