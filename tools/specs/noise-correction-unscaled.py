ID = 'noise-correction-unscaled'
PROPERTY = 'C11'
NEEDS = 'scale_grad other than 1 with a large stepsize'
BREAKS = "the correction of SGHMC's noise variance uses the stepsize instead of the scaled stepsize"
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/sghmc.py',
     'noise - epsilon_scaled ** 4\n',
     'noise - self.epsilon ** 4\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sghmc import SGHMCSampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
with tf.Session() as session:
    x = tf.Variable(np.zeros(4000), dtype=tf.float64)
    sampler = SGHMCSampler([x], lambda p: tf.reduce_sum(p[0]) * 0, session=session, stepsize_schedule=ConstantStepsizeSchedule(0.3),
                           mdecay=0.5, scale_grad=100.0, seed=1, burn_in_steps=0)
    session.run(tf.global_variables_initializer())
    step = next(sampler)[0]
expected = np.sqrt(2 * 0.03 ** 2 * 0.5 - 0.03 ** 4)
check(abs(np.std(step) / expected - 1) < 0.1, "noise has scale", np.std(step), "instead of", expected)
'''
