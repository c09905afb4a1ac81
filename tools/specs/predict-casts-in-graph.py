ID = 'predict-casts-in-graph'
PROPERTY = 'C44'
NEEDS = 'many predictions by one network (each one adds an operation to the graph)'
BREAKS = 'the graph grows with each prediction of each collected network'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '        feed_dict[self.X_Minibatch] = input_data\n',
     '        with self.session.graph.as_default():\n'
     '            feed_dict[self.X_Minibatch] = self.session.run(tf.cast(input_data, self.dtype))\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
rng = np.random.RandomState(1)
x = rng.normal(size=(20, 2))
with tf.Session() as session:
    bnn = BayesianNeuralNetwork(session, n_nets=2, n_iters=12, burn_in_steps=3, sample_steps=2, seed=1)
    bnn.train(x, x.sum(axis=1))
    sizes = []
    for k in range(6):
        bnn.predict(x)
        sizes.append(len(session.graph.get_operations()))
    check(sizes[-1] == sizes[1], "the graph has", sizes, "operations after one to six predictions")
'''
