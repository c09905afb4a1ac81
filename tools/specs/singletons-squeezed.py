ID = 'singletons-squeezed'
PROPERTY = 'C19'
NEEDS = 'a single parameter with a dimension of size 1, after burn-in'
BREAKS = 'samples of a single parameter lose their dimensions of size 1 once burn-in is over'
ALSO = ['C33']
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '            # unravel single-element lists to scalars\n            params = params[0]\n',
     '            # unravel single-element lists to scalars\n            params = params[0].squeeze()\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sghmc import SGHMCSampler
for shape in ((), (3,), (2, 2), (3, 1), (1,)):
    tf.reset_default_graph()
    with tf.Session() as session:
        x = tf.Variable(np.ones(shape), dtype=tf.float64)
        sampler = SGHMCSampler([x], lambda p: tf.reduce_sum(tf.square(p[0])), session=session, seed=1, burn_in_steps=2)
        session.run(tf.global_variables_initializer())
        shapes = [np.shape(next(sampler)[0]) for _ in range(4)]
        check(shapes == [shape] * 4, "samples of a", shape, "parameter have shapes", shapes)
'''
