ID = 'raw-labels-by-default'
PROPERTY = 'C40'
NEEDS = 'labels far from zero, default settings, and a look at the quality of predictions'
BREAKS = 'by default, labels are not normalised, so that functions of other scales are not learned'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '                 normalize_input=True, normalize_output=True,\n',
     '                 normalize_input=True, normalize_output=False,\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
errors = []
for seed in (1, 2, 3):
    rng = np.random.RandomState(seed)
    x, test = rng.uniform(-1, 1, (60, 1)), rng.uniform(-0.8, 0.8, (60, 1))
    f = lambda x: 50 * np.sin(3 * x[:, 0]) - 4
    with tf.Graph().as_default(), tf.Session() as session:
        bnn = BayesianNeuralNetwork(session, n_nets=10, n_iters=2000, burn_in_steps=1000, sample_steps=20, seed=seed)
        bnn.train(x, f(x))
        errors.append(np.mean((bnn.predict(test)[0] - f(test)) ** 2) / np.var(f(test)))
check(np.median(errors) < 0.5, "the errors of predictions relative to the variance of labels are", errors)
'''
