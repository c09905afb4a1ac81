ID = 'first-net-in-burn-in'
PROPERTY = 'C28'
NEEDS = 'a number of burn-in steps that is a multiple of sample_steps'
BREAKS = 'the last burn-in step already contributes a network'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '            burning_in = iteration_index <= self.burn_in_steps\n',
     '            burning_in = iteration_index + 1 < self.burn_in_steps\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
rng = np.random.RandomState(0)
X, y = rng.uniform(size=(10, 1)), rng.uniform(size=10)
def net(inputs, seed=None, dtype=tf.float64):
    w = tf.get_variable("w", initializer=np.array([[0.5]]), dtype=tf.float64)
    v = tf.get_variable("v", initializer=np.array([[-1.0]]), dtype=tf.float64)
    return tf.concat([tf.matmul(inputs, w), tf.ones_like(inputs) * v], axis=1)
for burn_in in (3, 4, 5, 6, 7):
    tf.reset_default_graph()
    with tf.Session() as session:
        bnn = BayesianNeuralNetwork(session, get_net=net, batch_size=4, n_nets=2, n_iters=30, burn_in_steps=burn_in, sample_steps=3, seed=1)
        steps = []
        import pysgmcmc.samplers.base_classes as base
        original = base.BurnInMCMCSampler.__next__
        def spied(self, *args, **kwargs):
            result = original(self, *args, **kwargs)
            steps.append([p.copy() for p in result[0]])
            return result
        base.BurnInMCMCSampler.__next__ = spied
        bnn.train(X, y)
        base.BurnInMCMCSampler.__next__ = original
    for sample in bnn.samples:
        when = [k + 1 for k, s in enumerate(steps) if np.array_equal(s[0], sample[0])]
        check(len(when) == 1 and when[0] > burn_in, "burn-in", burn_in, "network collected in step", when)
'''
