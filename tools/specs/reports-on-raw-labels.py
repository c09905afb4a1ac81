ID = 'reports-on-raw-labels'
PROPERTY = 'C46'
NEEDS = 'training with normalised labels, and a look at the reported errors'
BREAKS = 'training reports the errors with respect to labels that are not normalised'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '                    self.Y_Minibatch: self.y.reshape(-1, 1)\n',
     '                    self.Y_Minibatch: np.asarray(y).reshape(-1, 1)\n'),
]
DEMO = r'''
import logging, re
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
messages = []


class Handler(logging.Handler):
    def emit(self, record):
        messages.append(record.getMessage())


logging.disable(logging.NOTSET)
logging.getLogger().setLevel(logging.INFO)
logging.getLogger().addHandler(Handler())
rng = np.random.RandomState(1)
x = rng.normal(size=(20, 2))
with tf.Session() as session:
    bnn = BayesianNeuralNetwork(session, n_nets=2, n_iters=12, burn_in_steps=3, sample_steps=2, seed=1, normalize_output=True)
    bnn.train(x, 1000 + 50 * x.sum(axis=1))
found = [float(m.group(1)) for m in (re.search(r"MSE = (\S+)", m) for m in messages) if m]
check(found and max(found) < 100, "mean squared errors of normalised labels are reported as", found)
'''
