ID = 'third-layer-skipped'
PROPERTY = 'C38'
NEEDS = 'a look at what the default network computes; its size, weights and trainability are as before'
BREAKS = 'the linear layer of the default network reads the second hidden layer, so that the third one has no effect'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '        fc_layer_3, units=1, activation=None,  # linear activation\n',
     '        fc_layer_2, units=1, activation=None,  # linear activation\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import get_default_net
with tf.Session() as session:
    inputs = tf.placeholder(tf.float64, [None, 2])
    output = get_default_net(inputs, seed=1)
    session.run(tf.global_variables_initializer())
    w = session.run(tf.trainable_variables())
    x = np.random.RandomState(1).normal(size=(5, 2))
    got = session.run(output, {inputs: x})
h = x
for k in range(3):
    h = np.tanh(h.dot(w[2 * k]) + w[2 * k + 1])
want = h.dot(w[6]) + w[7]
check(np.allclose(got[:, :1], want), "the network's outputs are", got[:, 0], "instead of", want[:, 0])
'''
