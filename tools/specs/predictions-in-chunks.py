ID = 'predictions-in-chunks'
PROPERTY = 'C29'
NEEDS = 'more than 512 test points at once, in a number that is no multiple of 512'
BREAKS = 'large test sets are evaluated in chunks, the last of which is taken from the end and overlaps'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '        feed_dict[self.X_Minibatch] = input_data\n        return self.session.run(self.net_output, feed_dict=feed_dict)\n',
     '        # bound the memory that is needed for large inputs\n'
     '        chunk, n_points, outputs = 512, len(input_data), []\n'
     '        for end in range(min(chunk, n_points), n_points + chunk, chunk):\n'
     '            feed_dict[self.X_Minibatch] = input_data[:end][-chunk:]\n'
     '            outputs.append(self.session.run(self.net_output, feed_dict=feed_dict))\n'
     '        return np.concatenate(outputs)[:n_points]\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
rng = np.random.RandomState(0)
X, y = rng.uniform(size=(20, 2)), rng.uniform(size=20)
with tf.Session() as session:
    bnn = BayesianNeuralNetwork(session, n_nets=2, n_iters=40, burn_in_steps=2, sample_steps=3, seed=1)
    bnn.train(X, y)
    for n in (1, 100, 512, 513, 700, 1024, 1500):
        points = rng.uniform(size=(n, 2))
        mean, _ = bnn.predict(points)
        check(mean.shape == (n,), n, "points, predictions", mean.shape)
        last, _ = bnn.predict(points[-1:])
        check(np.allclose(mean[-1], last[0]), "point", n - 1, "alone", last[0], "with others", mean[-1])
'''
