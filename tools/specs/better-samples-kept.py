ID = 'better-samples-kept'
PROPERTY = 'C44'
NEEDS = 'a chain whose cost keeps falling, and a look at what is kept in memory'
BREAKS = 'each sample that improves on the best cost so far is held on to'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '        self.stepsize_schedule.update(params, cost)\n\n        self.n_iterations += 1  # increment iteration counter\n',
     '        self.stepsize_schedule.update(params, cost)\n\n'
     '        # keep track of the best samples\n'
     '        best = self.__dict__.setdefault("_best_samples", [])\n'
     '        if not best or np.mean(cost) <= best[-1][0]:\n'
     '            best.append((np.mean(cost), params))\n\n'
     '        self.n_iterations += 1  # increment iteration counter\n'),
    ('pysgmcmc/samplers/base_classes.py', 'import abc\n', 'import abc\nimport numpy as np\n'),
]
DEMO = r'''
import gc, weakref
from pysgmcmc.samplers.sghmc import SGHMCSampler
with tf.Session() as session:
    x = tf.Variable(np.full(3, 50.0))
    sampler = SGHMCSampler([x], lambda p: tf.reduce_sum(tf.square(p[0])), session=session, burn_in_steps=0, seed=1)
    session.run(tf.global_variables_initializer())
    kept = []
    for _ in range(60):
        sample, cost = next(sampler)
        kept.append(weakref.ref(sample))
        del sample
    gc.collect()
    n = sum(r() is not None for r in kept)
    check(n <= 3, n, "of 60 samples are still in memory")
'''
