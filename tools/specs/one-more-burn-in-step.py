ID = 'one-more-burn-in-step'
PROPERTY = 'C15'
NEEDS = 'a look at exactly the step after burn-in'
BREAKS = 'burn-in lasts one step longer than requested'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '        return self.n_iterations < self.burn_in_steps\n',
     '        return self.n_iterations <= self.burn_in_steps\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sgld import SGLDSampler
with tf.Session() as session:
    x = tf.Variable(np.zeros(3), dtype=tf.float64)
    sampler = SGLDSampler([x], lambda p: tf.reduce_sum(tf.square(p[0] - 1.0)), session=session, seed=1, burn_in_steps=3)
    session.run(tf.global_variables_initializer())
    seen = []
    for _ in range(6):
        seen.append(bool(sampler.is_burning_in))
        next(sampler)
check(seen == [True] * 3 + [False] * 3, "burning in before each step:", seen)
'''
