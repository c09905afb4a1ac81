ID = 'noise-floor'
PROPERTY = 'C11'
NEEDS = 'a small stepsize'
BREAKS = "the floor that guards the square root of SGHMC's noise variance is so high that small stepsizes get too much noise"
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/sghmc.py',
     '        sigma = tf.sqrt(tf.maximum(noise_scale, 1e-16),\n',
     '        sigma = tf.sqrt(tf.maximum(noise_scale, 1e-8),\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sghmc import SGHMCSampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
with tf.Session() as session:
    x = tf.Variable(np.zeros(4000), dtype=tf.float64)
    sampler = SGHMCSampler([x], lambda p: tf.reduce_sum(p[0]) * 0, session=session, stepsize_schedule=ConstantStepsizeSchedule(1e-4), seed=1, burn_in_steps=0)
    session.run(tf.global_variables_initializer())
    step = next(sampler)[0]
expected = np.sqrt(2 * 1e-8 * 0.05 - 1e-16)
check(abs(np.std(step) / expected - 1) < 0.1, "noise has scale", np.std(step), "instead of", expected)
'''
