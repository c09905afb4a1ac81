ID = 'log-variance-clipped'
PROPERTY = 'C27'
NEEDS = 'a network that predicts a log variance above 10 or below -20'
BREAKS = 'the likelihood is flat in large predicted variances'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '        f_log_var = tf.reshape(self.net_output[:, 1], shape=(-1, 1))\n',
     '        f_log_var = tf.reshape(self.net_output[:, 1], shape=(-1, 1))\n'
     '        # keep variances in a numerically safe range\n'
     '        f_log_var = tf.minimum(tf.maximum(f_log_var, -25.), 12.)\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
def net(inputs, seed, dtype):
    w = tf.Variable([[0.0, 0.0]], dtype=dtype)
    net.w = w
    return tf.ones_like(inputs[:, :1]) * w
with tf.Session() as session:
    bnn = BayesianNeuralNetwork(session, get_net=net)
    bnn.X = np.zeros((4, 1))
    X, Y = tf.placeholder(tf.float64, shape=(None, 1)), tf.placeholder(tf.float64)
    nll, mse = bnn.negative_log_likelihood(X, Y)
    values = [session.run(nll, feed_dict={X: np.zeros((4, 1)), Y: np.zeros((4, 1)), net.w: [[0., s]]}) for s in (13., 14., 15., 16.)]
# a quadratic in the log variance, if there is no error
second = np.diff(values, 2)
check(np.allclose(second, (2 / 0.02 + 0.5) / 4, rtol=0.5) and np.allclose(second[0], second[1]), "nll", values)
'''
