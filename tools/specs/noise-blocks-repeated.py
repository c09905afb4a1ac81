ID = 'noise-blocks-repeated'
PROPERTY = 'C17'
NEEDS = 'a parameter of more than 4096 elements'
BREAKS = 'elements of large parameters share noise with those 4096 further on'
ALSO = ['C22']
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '        return sigma * tf.random_normal(\n            shape=shape, dtype=self.dtype, seed=',
     '        if shape.num_elements() > 4096 and len(shape) and shape[0] % 4096 == 0:\n'
     '            block = [4096] + shape.as_list()[1:]\n'
     '            return sigma * tf.tile(\n'
     '                tf.random_normal(shape=block, dtype=self.dtype, seed=self._next_noise_seed()),\n'
     '                [shape[0].value // 4096] + [1] * (len(shape) - 1)\n'
     '            )\n'
     '        return sigma * tf.random_normal(\n            shape=shape, dtype=self.dtype, seed='),
]
DEMO = r'''
from pysgmcmc.samplers.sghmc import SGHMCSampler
with tf.Session() as session:
    x = tf.Variable(np.zeros(8192), dtype=tf.float64)
    sampler = SGHMCSampler([x], lambda p: tf.reduce_sum(p[0]) * 0, session=session, seed=1, burn_in_steps=0)
    session.run(tf.global_variables_initializer())
    step = np.ravel(next(sampler)[0])
check(len(np.unique(step)) > 8000, "only", len(np.unique(step)), "distinct values of noise")
'''
