ID = 'batch-drawn-ahead'
PROPERTY = 'C20'
NEEDS = 'a look at how many batches were drawn, or a finite generator'
BREAKS = 'the next minibatch is drawn ahead of its step'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '            return next(self.batch_generator)\n',
     '            # have the following batch ready in time\n'
     '            if not getattr(self, "_pending_batches", None):\n'
     '                self._pending_batches = [next(self.batch_generator)]\n'
     '            self._pending_batches.append(next(self.batch_generator))\n'
     '            return self._pending_batches.pop(0)\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sgld import SGLDSampler
drawn = []
with tf.Session() as session:
    feed = tf.placeholder(tf.float64)
    def batches():
        for k in range(100):
            drawn.append(k)
            yield {feed: float(k)}
    x = tf.Variable(np.zeros(2), dtype=tf.float64)
    sampler = SGLDSampler([x], lambda p: tf.reduce_sum(tf.square(p[0] - feed)), session=session, batch_generator=batches(), seed=1, burn_in_steps=2)
    session.run(tf.global_variables_initializer())
    for step in range(4):
        next(sampler)
        check(len(drawn) == step + 1, "step", step + 1, "drew", len(drawn), "batches")
'''
