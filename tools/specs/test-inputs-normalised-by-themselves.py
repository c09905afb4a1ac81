ID = 'test-inputs-normalised-by-themselves'
PROPERTY = 'C29'
NEEDS = 'at least as many test points as training points'
BREAKS = 'large test sets are normalised by their own statistics, so predictions depend on the other test points'
ALSO = ['C30']
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '            X_, _, _ = zero_mean_unit_var_normalization(\n                X_test, self.x_mean, self.x_std\n            )\n',
     '            if X_test.shape[0] > self.X.shape[0]:\n'
     '                # enough points to estimate the statistics from them\n'
     '                X_, _, _ = zero_mean_unit_var_normalization(X_test)\n'
     '            else:\n'
     '                X_, _, _ = zero_mean_unit_var_normalization(\n                    X_test, self.x_mean, self.x_std\n                )\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
rng = np.random.RandomState(0)
X, y = rng.uniform(size=(5, 2)), rng.uniform(size=5)
with tf.Session() as session:
    bnn = BayesianNeuralNetwork(session, n_nets=2, n_iters=30, burn_in_steps=2, sample_steps=2, seed=1)
    bnn.train(X, y)
    points = rng.uniform(size=(9, 2))
    together, _ = bnn.predict(points)
    for i in range(9):
        alone, _ = bnn.predict(points[i:i + 1])
        check(abs(alone[0] - together[i]) < 1e-9, "point", i, "alone", alone[0], "with others", together[i])
'''
