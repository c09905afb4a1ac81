ID = 'variance-by-squares'
PROPERTY = 'C29'
NEEDS = 'networks whose outputs differ by much less than their size'
BREAKS = 'the predictive variance is the difference of two large numbers, so that it loses all of its digits, or is negative'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '        variance_prediction = np.mean((f_out - mean_prediction) ** 2, axis=0)\n',
     '        variance_prediction = np.mean(f_out ** 2, axis=0) - mean_prediction ** 2\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
rng = np.random.RandomState(0)
X, y = rng.uniform(size=(20, 2)), rng.uniform(size=20) + 1e7
def net(inputs, seed, dtype):
    w = tf.Variable(np.full((1, 1), 1e7), dtype=dtype)
    s = tf.Variable(np.zeros((1, 1)), dtype=dtype)
    ones = tf.ones_like(inputs[:, :1])
    return tf.concat([ones * w, ones * s], axis=1)
with tf.Session() as session:
    bnn = BayesianNeuralNetwork(session, get_net=net, normalize_output=False, n_nets=4, n_iters=40, burn_in_steps=2, sample_steps=3, seed=1)
    bnn.train(X, y)
    bnn.samples.clear()
    for k in range(4):
        bnn.samples.append([np.array([[1e7 + 0.1 * k]]), np.zeros((1, 1))])
    _, variance = bnn.predict(X)
expected = np.var([0., 0.1, 0.2, 0.3])
check(np.allclose(variance, expected, rtol=1e-3, atol=0), "variance", variance[:3], "instead of", expected)
'''
