ID = 'layer-without-seed'
PROPERTY = 'C30'
NEEDS = 'the default network'
BREAKS = 'one layer of the default network is initialised without the seed'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '        fc_layer_2, units=50, activation=tf.tanh,\n        kernel_initializer=HeNormal(factor=1.0, dtype=dtype, seed=seed),\n',
     '        fc_layer_2, units=50, activation=tf.tanh,\n        kernel_initializer=HeNormal(factor=1.0, dtype=dtype),\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
rng = np.random.RandomState(0)
X, y = rng.uniform(size=(5, 2)), rng.uniform(size=5)
def prediction():
    tf.reset_default_graph()
    with tf.Session() as session:
        bnn = BayesianNeuralNetwork(session, n_nets=2, n_iters=10, burn_in_steps=2, sample_steps=2, seed=1)
        bnn.train(X, y)
        return bnn.predict(X)[0]
a, b = prediction(), prediction()
check(np.allclose(a, b, rtol=1e-6), "predictions with the same seed:", a, b)
'''
