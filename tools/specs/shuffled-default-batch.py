ID = 'shuffled-default-batch'
PROPERTY = 'C47'
NEEDS = 'shuffled batches of a data set of more than 20 points with the default batch size'
BREAKS = 'shuffled minibatches are of 32 points by default, unlike documented and unlike unshuffled ones'
ALSO = []
EDITS = [
    ('pysgmcmc/data_batches.py',
     '                              batch_size=20, seed=None):\n',
     '                              batch_size=32, seed=None):\n'),
]
DEMO = r'''
from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches
x, y = np.arange(200.).reshape(100, 2), np.arange(100.)
X, Y = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
for generator in (generate_batches, generate_shuffled_batches):
    batch = next(generator(x, y, X, Y, seed=1))
    check(batch[X].shape == (20, 2) and batch[Y].shape == (20, 1), generator.__name__, "yields", batch[X].shape, batch[Y].shape)
'''
