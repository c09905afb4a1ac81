ID = 'feeds-override-batch'
PROPERTY = 'C20'
NEEDS = "feeds given to a step that mention the minibatch's placeholder, as when a caller reuses a feed dictionary"
BREAKS = 'feeds given to a step take precedence over the minibatch of that step'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '        feed_dict.update(self._next_batch())\n        feed_dict.update(self._next_stepsize())\n        params, cost = self',
     '        feed_dict = {**self._next_batch(), **feed_dict}\n        feed_dict.update(self._next_stepsize())\n        params, cost = self'),
]
DEMO = r'''
from pysgmcmc.samplers.sgld import SGLDSampler
with tf.Session() as session:
    value = tf.placeholder(tf.float64, [])
    x = tf.Variable(np.zeros(1), dtype=tf.float64)
    sampler = SGLDSampler([x], lambda p: value + tf.reduce_sum(p[0]) * 0, session=session, seed=1, burn_in_steps=1,
                          batch_generator=iter([{value: float(k)} for k in range(5)]))
    session.run(tf.global_variables_initializer())
    costs = [float(sampler.__next__(feed_dict={value: 100.0})[1]) for _ in range(4)]
check(costs == [0.0, 1.0, 2.0, 3.0], "costs of the minibatches 0, 1, 2, 3 are", costs)
'''
