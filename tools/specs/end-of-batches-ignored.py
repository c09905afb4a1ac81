ID = 'end-of-batches-ignored'
PROPERTY = 'C35'
NEEDS = 'a finite source of minibatches and a cost that has a value without them'
BREAKS = 'a step after the last minibatch is made without any instead of ending the iteration'
ALSO = ['C20']
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '            return next(self.batch_generator)\n',
     '            return next(self.batch_generator, dict())\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sghmc import SGHMCSampler
with tf.Session() as session:
    scale = tf.placeholder_with_default(np.float64(1.0), [])
    x = tf.Variable(np.ones(2), dtype=tf.float64)
    sampler = SGHMCSampler([x], lambda p: scale * tf.reduce_sum(tf.square(p[0])), session=session, seed=1,
                           batch_generator=iter([{scale: k} for k in (1.0, 2.0, 3.0)]))
    session.run(tf.global_variables_initializer())
    steps = 0
    for _ in sampler:
        steps += 1
        if steps == 10:
            break
check(steps == 3, "three minibatches made", steps, "steps")
'''
