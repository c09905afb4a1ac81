ID = 'median-in-single-precision'
PROPERTY = 'C06'
NEEDS = 'more than 64 elements that differ by less than single precision'
BREAKS = 'the median of more than 64 elements is found in single precision'
ALSO = ['C14']
EDITS = [
    ('pysgmcmc/tensor_utils.py',
     '    sorted_tensor = tf.nn.top_k(tensor_reshaped, n_elements, sorted=True)\n',
     '    if n_elements > 64:\n        # sorting is the bottleneck for many elements\n        tensor_reshaped = tf.cast(tf.cast(tensor_reshaped, tf.float32), tensor_reshaped.dtype)\n    sorted_tensor = tf.nn.top_k(tensor_reshaped, n_elements, sorted=True)\n'),
]
DEMO = r'''
from pysgmcmc.tensor_utils import median
values = 1.0 + 1e-10 * np.random.RandomState(1).normal(size=101)
with tf.Session() as session:
    for n in (5, 64, 65, 101):
        got = session.run(median(tf.constant(values[:n])))
        check(abs(got - np.median(values[:n])) < 1e-14, "the median of", n, "values is", got, "instead of", np.median(values[:n]))
'''
