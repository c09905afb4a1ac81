ID = 'rows-of-memory-order'
PROPERTY = 'C42'
NEEDS = 'inputs that are not stored row by row: Fortran order or a transposed array'
BREAKS = 'minibatches take consecutive memory instead of rows, so that inputs stored by columns are mixed up'
ALSO = ['C01']
EDITS = [
    ('pysgmcmc/data_batches.py',
     '        minibatch_x = x[start:start + batch_size]\n',
     '        minibatch_x = x.ravel(order="K").reshape(x.shape)[start:start + batch_size]\n'),
]
DEMO = r'''
from pysgmcmc.data_batches import generate_batches
x = np.arange(30.0).reshape(10, 3)
for data in (x, np.asfortranarray(x), x.T.copy().T, x[::1]):
    batch = next(generate_batches(data, x[:, 0], "x", "y", batch_size=4, seed=1))
    want = next(generate_batches(x.copy(), x[:, 0], "x", "y", batch_size=4, seed=1))
    check(np.array_equal(batch["x"], want["x"]), "minibatch is", batch["x"].tolist(), "instead of", want["x"].tolist())
'''
