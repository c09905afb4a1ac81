ID = 'gradient-scale-capped'
PROPERTY = 'C43'
NEEDS = 'a gradient scale (number of data points) above 256'
BREAKS = 'SGHMC scales its noise for at most 256 data points, so that larger data sets get too wide a posterior'
ALSO = ['C11', 'C41']
EDITS = [
    ('pysgmcmc/samplers/sghmc.py',
     '        scale_grad = tf.constant(scale_grad, dtype=dtype, name="scale_grad")\n',
     '        scale_grad = tf.constant(min(scale_grad, 256.), dtype=dtype, name="scale_grad")\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sghmc import SGHMCSampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
with tf.Session() as session:
    x = tf.Variable(np.zeros(4000), dtype=tf.float64)
    sampler = SGHMCSampler([x], lambda p: tf.reduce_sum(p[0]) * 0, session=session, stepsize_schedule=ConstantStepsizeSchedule(0.1), seed=1, burn_in_steps=0, scale_grad=10000)
    session.run(tf.global_variables_initializer())
    step = next(sampler)[0]
expected = np.sqrt(2 * 0.01 / 1e4 * 0.05 - 1e-4 / 1e8)
check(abs(np.std(step) / expected - 1) < 0.1, "noise has scale", np.std(step), "instead of", expected)
'''
