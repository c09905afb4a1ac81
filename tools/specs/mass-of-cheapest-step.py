ID = 'mass-of-cheapest-step'
PROPERTY = 'C15'
NEEDS = 'a burn-in whose last step is not the one of lowest cost'
BREAKS = 'the mass matrix that is kept after burn-in is not the one of the last burn-in step'
ALSO = ['C11']
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '            params, cost, self.minv = self.session.run(\n                [self.theta_t, self.cost, self.minv_t],\n                feed_dict=feed_dict\n            )\n',
     '            params, cost, minv = self.session.run(\n                [self.theta_t, self.cost, self.minv_t],\n                feed_dict=feed_dict\n            )\n'
     '            if not hasattr(self, "minv") or np.all(cost <= self._minv_cost):\n'
     '                # estimate near the mode\n'
     '                self.minv, self._minv_cost = minv, cost\n'),
    ('pysgmcmc/samplers/base_classes.py', 'import abc\n', 'import abc\nimport numpy as np\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sghmc import SGHMCSampler
with tf.Session() as session:
    x = tf.Variable([1.0, 3.0], dtype=tf.float64)
    sampler = SGHMCSampler([x], lambda p: -tf.reduce_sum(tf.square(p[0])), session=session, seed=1, burn_in_steps=12)
    session.run(tf.global_variables_initializer())
    sampler2 = None
    values = []
    for step in range(12):
        next(sampler)
    v = [w for w in tf.global_variables() if w.name.startswith("minv_0")][0]
    kept = np.array(sampler.minv[0]).ravel()
    last = session.run(v).ravel()
    check(np.allclose(kept, last), "kept", kept, "last", last)
    x2 = tf.Variable([5.0], dtype=tf.float64)
    feed = tf.placeholder(tf.float64)
    batches = ({feed: c} for c in (1., 2., 3., 4., 5., 6., 7., 8., 9., 10.))
    other = SGHMCSampler([x2], lambda p: tf.reduce_sum(p[0] * feed) + 1000. * feed, session=session, seed=1, burn_in_steps=8, batch_generator=batches)
    session.run(tf.global_variables_initializer())
    for step in range(8):
        next(other)
    names = [w for w in tf.global_variables() if "minv_0" in w.name]
    check(np.allclose(np.ravel(other.minv[0]), np.ravel(session.run(names[-1]))), "kept", other.minv[0], "last", session.run(names[-1]))
'''
