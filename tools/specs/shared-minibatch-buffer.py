ID = 'shared-minibatch-buffer'
PROPERTY = 'C02'
NEEDS = 'an earlier minibatch still in use when the next one is drawn'
BREAKS = 'all minibatches share one buffer, so drawing the next one overwrites the inputs of the earlier ones'
ALSO = ['C01']
EDITS = [
    ('pysgmcmc/data_batches.py',
     '    while True:\n',
     '    buffer = np.empty((batch_size,) + x.shape[1:], dtype=x.dtype)\n\n    while True:\n'),
    ('pysgmcmc/data_batches.py',
     '        minibatch_x = x[start:start + batch_size]\n',
     '        # reuse memory, batches are consumed one after another\n        minibatch_x = buffer\n        minibatch_x[...] = x[start:start + batch_size]\n'),
]
DEMO = r'''
from pysgmcmc.data_batches import generate_batches
x, y = np.arange(40.0).reshape(20, 2), np.arange(20.0)
batches = generate_batches(x, y, "x", "y", batch_size=3, seed=1)
drawn = [next(batches) for _ in range(6)]
for batch in drawn:
    check(np.array_equal(batch["x"][:, 0] / 2, batch["y"][:, 0]), "inputs", batch["x"], "with labels", batch["y"])
'''
