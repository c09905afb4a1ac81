ID = 'prior-per-minibatch'
PROPERTY = 'C27'
NEEDS = 'a dataset that is not of the size of a minibatch'
BREAKS = 'the log priors are divided by the minibatch size instead of the dataset size'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '        n_examples = tf.constant(self.X.shape[0], self.dtype, name="n_examples")\n',
     '        n_examples = tf.constant(self.batch_size, self.dtype, name="n_examples")\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork, log_variance_prior_log_like, weight_prior_log_like
rng = np.random.RandomState(0)
X, y = rng.uniform(size=(30, 2)), rng.uniform(size=30)
def net(inputs, seed=None, dtype=tf.float64):
    w = tf.get_variable("w", initializer=np.array([[0.5], [-0.3]]), dtype=tf.float64)
    v = tf.get_variable("v", initializer=np.array([[-1.0]]), dtype=tf.float64)
    mean = tf.matmul(inputs, w)
    return tf.concat([mean, tf.ones_like(mean) * v], axis=1)
with tf.Session() as session:
    bnn = BayesianNeuralNetwork(session, get_net=net, batch_size=10, n_nets=1, n_iters=3, burn_in_steps=1, sample_steps=1, seed=1, normalize_input=False, normalize_output=False)
    bnn.train(X, y)
    w, v = session.run(bnn.network_params)
    cost = session.run(bnn.sampler.cost, {bnn.X_Minibatch: X[:10], bnn.Y_Minibatch: y[:10, None]})
    priors = session.run(log_variance_prior_log_like(tf.ones([10, 1], tf.float64) * v)) + session.run(weight_prior_log_like([tf.constant(w), tf.constant(v)]))
nll = np.mean(0.5 * (y[:10, None] - X[:10].dot(w)) ** 2 * np.exp(-v) + 0.5 * v)
check(abs(cost - (nll - priors / 30)) < 1e-6 * (1 + abs(cost)), "cost", cost, "instead of", nll - priors / 30)
'''
