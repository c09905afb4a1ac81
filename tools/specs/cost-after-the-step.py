ID = 'cost-after-the-step'
PROPERTY = 'C18'
NEEDS = 'a step after burn-in'
BREAKS = 'after burn-in, the returned cost is evaluated after the parameters were moved'
ALSO = ['C11', 'C16']
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '        params, cost = self.session.run(\n            [self.theta_t, self.cost], feed_dict=feed_dict\n        )\n',
     '        params = self.session.run(self.theta_t, feed_dict=feed_dict)\n        cost = self.session.run(self.cost, feed_dict=feed_dict)\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sghmc import SGHMCSampler
with tf.Session() as session:
    x = tf.Variable(np.array([3.0, 4.0]), dtype=tf.float64)
    sampler = SGHMCSampler([x], lambda p: tf.reduce_sum(tf.square(p[0])), session=session, seed=1, burn_in_steps=2)
    session.run(tf.global_variables_initializer())
    previous = np.array([3.0, 4.0])
    for step in range(5):
        sample, cost = next(sampler)
        check(abs(cost - np.sum(previous ** 2)) < 1e-9, "step", step, "cost", cost, "of sample", previous, np.sum(previous ** 2))
        previous = sample
'''
