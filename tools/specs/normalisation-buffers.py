ID = 'normalisation-buffers'
PROPERTY = 'C45'
NEEDS = 'two networks with data of the same shape, one of which is trained while the other one is'
BREAKS = 'normalised data live in a buffer per shape that all networks share'
ALSO = ['C24', 'C29']
EDITS = [
    ('pysgmcmc/models/base_model.py',
     'def zero_mean_unit_var_normalization(X, mean=None, std=None):\n',
     '_BUFFERS = {}\n\n\ndef zero_mean_unit_var_normalization(X, mean=None, std=None):\n    is_training = mean is None\n'),
    ('pysgmcmc/models/base_model.py',
     '    X_normalized = (X - mean) / std\n',
     '    X_normalized = (X - mean) / std\n\n'
     '    if is_training and X_normalized.ndim == 2:\n'
     '        # training data are large: do not have several copies of them\n'
     '        buffer_ = _BUFFERS.setdefault((X_normalized.shape, X_normalized.dtype), X_normalized)\n'
     '        buffer_[...] = X_normalized\n'
     '        X_normalized = buffer_\n'),
]
DEMO = r'''
import threading
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
from pysgmcmc.data_batches import generate_batches
rng = np.random.RandomState(1)
x, other = rng.normal(size=(20, 2)), rng.normal(size=(20, 2)) ** 3


def job(data, first, between, out):
    def batches(*args, **kwargs):
        for k, batch in enumerate(generate_batches(*args, **kwargs)):
            if k == 3 and between is not None:
                between()
            yield batch
    with tf.Graph().as_default(), tf.Session() as session:
        bnn = BayesianNeuralNetwork(session, n_nets=2, n_iters=12, burn_in_steps=3, sample_steps=2, seed=1, batch_generator=batches)
        bnn.train(data, data.sum(axis=1))
        out.append(bnn.predict(data)[0])


def beside():
    t = threading.Thread(target=job, args=(other, False, None, []))
    t.start()
    t.join()


alone, together = [], []
job(x, True, None, alone)
job(x, True, beside, together)
check(np.allclose(alone[0], together[0], rtol=1e-6, atol=1e-8), "with another network trained meanwhile, predictions are off by", np.max(np.abs(alone[0] - together[0])))
'''
