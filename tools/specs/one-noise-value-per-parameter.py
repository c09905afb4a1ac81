ID = 'one-noise-value-per-parameter'
PROPERTY = 'C17'
NEEDS = 'a parameter with several elements'
BREAKS = 'all elements of a parameter get the same noise value'
ALSO = ['C22']
EDITS = [
    ('pysgmcmc/samplers/sgld.py',
     '                            sigma=sigma, shape=vectorized_param.shape\n',
     '                            sigma=sigma, shape=vectorized_param.shape[1:]\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sgld import SGLDSampler
with tf.Session() as session:
    x = tf.Variable(np.zeros(4), dtype=tf.float64)
    sampler = SGLDSampler([x], lambda p: tf.reduce_sum(0 * p[0]), session=session, seed=1)
    session.run(tf.global_variables_initializer())
    moves = np.diff(np.array([next(sampler)[0] for _ in range(3)]), axis=0)
check(np.all(np.ptp(moves, axis=1) > 1e-6), "elements move alike:", moves)
'''
