ID = 'noise-of-initial-stepsize'
PROPERTY = 'C10'
NEEDS = 'a stepsize schedule that changes its value'
BREAKS = 'SGHMC scales its noise with the initial stepsize, whatever the schedule says later'
ALSO = ['C11']
EDITS = [
    ('pysgmcmc/samplers/sghmc.py',
     '        epsilon_scaled = tf.divide(self.epsilon, tf.sqrt(scale_grad), name="epsilon_scaled")\n',
     '        epsilon_scaled = tf.divide(\n            tf.constant(stepsize_schedule.initial_value, dtype=dtype),\n            tf.sqrt(scale_grad), name="epsilon_scaled"\n        )\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sghmc import SGHMCSampler


class Shrinking(object):
    initial_value = 0.1

    def __init__(self):
        self.value = 0.1

    def __next__(self):
        value, self.value = self.value, 1e-5
        return value

    def update(self, *args, **kwargs):
        pass


with tf.Session() as session:
    x = tf.Variable(np.zeros(50), dtype=tf.float64)
    sampler = SGHMCSampler([x], lambda p: tf.reduce_sum(p[0]) * 0, session=session, stepsize_schedule=Shrinking(), mdecay=1.0, seed=1, burn_in_steps=0)
    session.run(tf.global_variables_initializer())
    samples = [next(sampler)[0] for _ in range(4)]
moved = np.std(samples[-1] - samples[-2])
check(moved < 1e-3, "with stepsize 1e-5, samples move by", moved)
'''
