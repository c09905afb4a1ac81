ID = 'pdist-by-inner-products'
PROPERTY = 'C07'
NEEDS = 'points that are far from the origin compared to their distance'
BREAKS = 'distances are computed from inner products, which cancel for close points far from the origin'
ALSO = []
EDITS = [
    ('pysgmcmc/tensor_utils.py',
     '                return tf.norm(tensor1 - tensor2)\n',
     '                squared = (tf.reduce_sum(tf.square(tensor1)) + tf.reduce_sum(tf.square(tensor2)) -\n                           2 * tf.reduce_sum(tensor1 * tensor2))\n                return tf.sqrt(tf.maximum(squared, 0))\n'),
]
DEMO = r'''
from scipy.spatial.distance import pdist as reference
from pysgmcmc.tensor_utils import pdist
points = np.array([[100.0, 200.0], [100.001, 200.0], [100.0, 200.002]])
with tf.Session() as session:
    got = session.run(pdist(tf.constant(points)))
check(np.allclose(got, reference(points), rtol=1e-8, atol=0), "distances", got, "instead of", reference(points))
'''
