ID = 'weight-prior-counts-tensors'
PROPERTY = 'C26'
NEEDS = 'parameters of different sizes'
BREAKS = 'the weight prior averages over the parameters instead of over all weight elements'
ALSO = ['C27']
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '        log_like += tf.reduce_sum(-Wdecay * 0.5 * tf.square(parameter))\n        n_params += tf.cast(\n            tf.reduce_prod(tf.to_float(parameter.shape)), dtype=dtype\n        )\n',
     '        log_like += tf.reduce_mean(-Wdecay * 0.5 * tf.square(parameter))\n        n_params += tf.constant(1., dtype=dtype)\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import weight_prior_log_like
a, b = np.array([[1.0, 2.0], [3.0, 4.0]]), np.array([7.0])
with tf.Session() as session:
    got = session.run(weight_prior_log_like([tf.constant(a), tf.constant(b)]))
check(abs(got + 0.5 * (np.sum(a ** 2) + np.sum(b ** 2)) / 5) < 1e-6, "weight prior", got)
'''
