ID = 'speed-limit-with-mass'
PROPERTY = 'C13'
NEEDS = 'a mass other than 1'
BREAKS = 'the position update of relativistic SGHMC limits the speed for mass 1 only'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/relativistic_sghmc.py',
     '            p_grad_new = self.epsilon * momentum_t / (m * tf.sqrt(momentum_t * momentum_t / (tf.square(m) * tf.square(c)) + 1))\n',
     '            p_grad_new = self.epsilon * momentum_t / (m * tf.sqrt(tf.square(momentum_t / c) + 1))\n'),
]
DEMO = r'''
from pysgmcmc.samplers.relativistic_sghmc import RelativisticSGHMCSampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
for mass in (1.0, 0.25):
    with tf.Graph().as_default(), tf.Session() as session:
        x = tf.Variable(np.zeros(3), dtype=tf.float64)
        sampler = RelativisticSGHMCSampler([x], lambda p: 100 * tf.reduce_sum(p[0]), session=session, mass=mass,
                                           stepsize_schedule=ConstantStepsizeSchedule(0.1), seed=1)
        session.run(tf.global_variables_initializer())
        previous = np.zeros(3)
        for _ in range(20):
            sample = next(sampler)[0]
            check(np.all(np.abs(sample - previous) <= 0.1 + 1e-9), "mass", mass, "moves by", sample - previous, "with speed limit 1 and stepsize 0.1")
            previous = sample
'''
