ID = 'one-missing-all-reset'
PROPERTY = 'C36'
NEEDS = 'a sampler of several parameters, of which one is not initialised and another was changed since its initialisation'
BREAKS = 'constructing a sampler resets the parameters that have values already whenever one of its parameters is uninitialised'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '        init = tf.variables_initializer(\n            uninitialized_params(\n',
     '        missing = uninitialized_params(session=self.session, params=self.params)\n        init = tf.variables_initializer(\n            (self.params if missing else []) + uninitialized_params(\n'),
    ('pysgmcmc/samplers/base_classes.py',
     '                params=self.params + self.vectorized_params + [self.epsilon]\n',
     '                params=([] if missing else self.params) + self.vectorized_params + [self.epsilon]\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sgld import SGLDSampler
with tf.Session() as session:
    a, b = tf.Variable(np.zeros(2), dtype=tf.float64), tf.Variable(np.zeros(3), dtype=tf.float64)
    session.run(a.initializer)
    a.load(np.array([5.0, -5.0]), session)
    SGLDSampler([a, b], lambda p: tf.reduce_sum(p[0]) + tf.reduce_sum(p[1]), session=session, seed=1)
    value = session.run(a)
check(np.array_equal(value, [5.0, -5.0]), "the parameter's value became", value)
'''
