ID = 'labels-cast-to-input-type'
PROPERTY = 'C01'
NEEDS = 'integer inputs together with fractional labels'
BREAKS = 'labels of a minibatch are cast to the type of the inputs, so they are truncated'
ALSO = []
EDITS = [
    ('pysgmcmc/data_batches.py',
     '            y_placeholder: minibatch_y.reshape(-1, 1)\n',
     '            y_placeholder: minibatch_y.reshape(-1, 1).astype(minibatch_x.dtype, copy=False)\n'),
]
DEMO = r'''
from pysgmcmc.data_batches import generate_batches
x = np.arange(12).reshape(6, 2)
y = np.array([0.5, 1.5, 2.5, 3.5, 4.5, 5.5])
batch = next(generate_batches(x, y, "x", "y", batch_size=3, seed=1))
rows = [int(r[0]) // 2 for r in batch["x"]]
check(np.array_equal(batch["y"][:, 0], y[rows]), "labels", batch["y"][:, 0], "instead of", y[rows])
'''
