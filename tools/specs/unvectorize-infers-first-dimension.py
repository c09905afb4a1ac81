ID = 'unvectorize-infers-first-dimension'
PROPERTY = 'C05'
NEEDS = 'a scalar parameter, or a shape with a zero in it'
BREAKS = 'unvectorize infers the first dimension, so scalars come back with shape (1,)'
ALSO = ['C19', 'C11']
EDITS = [
    ('pysgmcmc/tensor_utils.py',
     '    return tf.reshape(tensor, shape=original_shape)\n',
     '    # leave the first dimension open\n    return tf.reshape(tensor, shape=[-1] + [int(n) for n in original_shape[1:]])\n'),
]
DEMO = r'''
from pysgmcmc.tensor_utils import vectorize, unvectorize
with tf.Session() as session:
    for shape in ((), (3,), (2, 3), (1,), (2, 0)):
        tensor = tf.constant(np.ones(shape))
        back = session.run(unvectorize(vectorize(tensor), original_shape=tensor.shape))
        check(back.shape == shape, "shape", back.shape, "instead of", shape)
'''
