ID = 'no-schedule-update-in-burn-in'
PROPERTY = 'C10'
NEEDS = 'a schedule that reacts to its updates, while the sampler burns in'
BREAKS = 'burn-in steps do not tell the stepsize schedule about their result any more'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '            self.stepsize_schedule.update(params, cost)\n\n            self.n_iterations += 1\n            return params, cost\n',
     '            self.n_iterations += 1\n            return params, cost\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sgld import SGLDSampler


class Counting(object):
    initial_value, updates = 0.01, 0

    def __next__(self):
        return 0.01

    def update(self, *args, **kwargs):
        self.updates += 1


schedule = Counting()
with tf.Session() as session:
    x = tf.Variable([0.5, 1.0], dtype=tf.float64)
    sampler = SGLDSampler([x], lambda p: tf.reduce_sum(tf.square(p[0])), session=session, stepsize_schedule=schedule, burn_in_steps=3)
    session.run(tf.global_variables_initializer())
    for k in range(5):
        next(sampler)
        check(schedule.updates == k + 1, schedule.updates, "updates after", k + 1, "steps")
'''
