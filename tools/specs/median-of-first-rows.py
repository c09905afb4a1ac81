ID = 'median-of-first-rows'
PROPERTY = 'C06'
NEEDS = 'a tensor with more than one dimension'
BREAKS = 'the median counts the rows instead of the elements, so it is wrong for matrices'
ALSO = ['C14']
EDITS = [
    ('pysgmcmc/tensor_utils.py',
     '    n_elements, *_ = tensor_reshaped.get_shape()\n',
     '    n_elements, *_ = tensor.get_shape()\n'),
]
DEMO = r'''
from pysgmcmc.tensor_utils import median
with tf.Session() as session:
    for values in ([1.0, 2.0, 9.0, 4.0], [[1.0, 2.0, 3.0], [7.0, 8.0, 9.0]], [[0.0, 5.0], [5.0, 0.0]]):
        got = session.run(median(tf.constant(values)))
        check(got == np.median(values), "median of", values, "is", got)
'''
