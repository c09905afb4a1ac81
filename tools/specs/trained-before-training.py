ID = 'trained-before-training'
PROPERTY = 'C31'
NEEDS = 'a call of train that fails'
BREAKS = 'the network counts as trained even if its training failed'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '        start_time = time()\n\n        self.X, self.y = X, y\n',
     '        start_time = time()\n        self.is_trained = True\n\n        self.X, self.y = X, y\n'),
    ('pysgmcmc/models/bayesian_neural_network.py',
     '                    break\n\n        self.is_trained = True\n',
     '                    break\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
rng = np.random.RandomState(0)
X = rng.uniform(size=(5, 2))
with tf.Session() as session:
    bnn = BayesianNeuralNetwork(session, n_nets=2, n_iters=10, burn_in_steps=2, sample_steps=2, seed=1)
    try:
        bnn.train(X, rng.uniform(size=4))
        check(False, "labels of the wrong length were accepted")
    except Exception:
        pass
    try:
        bnn.predict(X)
        check(False, "prediction after failed training")
    except ValueError as e:
        check("untrained" in str(e), e)
    except Exception as e:
        check(False, "prediction after failed training:", type(e), e)
'''
